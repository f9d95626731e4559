"""Call scripts for the real library.  Every scenario is a Rec; what is right is decided by the
specification alone (spec/Trace.tla)."""
import math
import random
from lib import Rec, I16, I32, F32, F64, DEFAULT_ENV

M, S, I, LRA, SP, TP, HIST = 1, 3, 5, 11, 17, 49, 64
FULL = I | LRA | SP | TP          # everything but the histogram
ALLKEYS = ["m", "s", "w", "g", "r", "t", "c", "sp", "tp", "psp", "ptp", "cfg", "map", "ms"]
ACCUM = ["m", "s", "w", "g", "r", "t", "c", "sp", "tp", "cfg", "map", "ms"]
ROLES = list(range(32))
SURROUND = [4, 5, 9, 10, 11, 12]


def stable(rate):
    """Both stages of the K-weighting are stable at this rate (below Nyquist of 1682 Hz they alias)."""
    return rate >= 4000 or all(math.tan(math.pi * f / rate) > 1e-3 for f in (1681.974450955533, 38.13547087602444))


def hop(rate):
    return (rate + 5) // 10


TINY = [r for r in range(16, 130) if stable(r)]
LOWR = [r for r in (997, 1000, 1004, 1005, 2000, 4000, 4005, 8000, 11025, 12000, 16000, 22050) if stable(r)]
MID = [32000, 44100, 48000]
EDGE = [88200, 95999, 96000, 96001, 176400, 191999, 192000, 192001]
HIGH = [352800, 384000, 768000, 2822400]
STD = [32000, 44100, 44100, 48000, 48000, 48000, 88200, 96000, 96000, 176400, 192000, 192000]


def default_map(ch):
    six = {4: [1, 2, 4, 5], 5: [1, 2, 3, 4, 5]}.get(ch, [1, 2, 3, 0, 4, 5])
    return [six[c] if c < len(six) else 0 for c in range(ch)]


class Maker:
    """Random choices shared by the scenarios."""

    def __init__(self, seed, name):
        self.rnd = random.Random(f"{seed}/{name}")

    def pick(self, xs):
        return self.rnd.choice(list(xs))

    def levels(self, lo=-75, hi=0, n=None):
        """An envelope: linear factors in 1/32768 for levels in dB."""
        n = n or self.rnd.randint(2, 7)
        return [max(0, min(32768, round(32768 * 10 ** (self.rnd.uniform(lo, hi) / 20)))) for _ in range(n)]

    def program(self, rec, rate, ch, kind=None, fmt16=True, e=0, lo=-75, hi=0, stretch=None, silent=0.15):
        """A programme with changing levels, so that blocks fall on both sides of the gates."""
        kind = kind or self.pick(["noise", "noise", "sq", "sine", "imp"])
        a = [self.rnd.randint(9000, 32767) for _ in range(min(ch, self.rnd.choice([1, 3, 5, 7])))]
        lev = self.levels(lo, hi)
        if self.rnd.random() < silent:
            lev[self.rnd.randrange(len(lev))] = 0
        h = stretch or max(1, int(hop(rate) * self.rnd.choice([0.5, 2, 3.3, 6, 11, 25])))
        p = max(1, int(rate / self.rnd.choice([3, 4, 5, 9, 40, 200])))
        fr = int(self.rnd.uniform(20, min(rate / 2.2, 15000)) * 1000) if rate > 200 else 1000 * 3
        return rec.sig(kind, a=a, s=self.rnd.randint(1, 32000), h=h, lev=lev, p=p, fr=fr, rate=rate, e=e,
                       low=0 if fmt16 else 1)

    def fmt(self, sixteen=True):
        return self.pick([I16, I32, F32, F64]) if sixteen else F64

    def cut(self, total, rate, style=None):
        """Ways of cutting a stream into calls."""
        s = hop(rate)
        style = style or self.pick(["random", "boundary", "near", "large", "tiny", "mixed"])
        left, out = total, []
        while left > 0 and len(out) < 400:
            r = self.rnd.random()
            if style == "tiny":
                n = self.pick([1, 1, 2, 3, 7])
            elif style == "boundary":
                n = s * self.pick([1, 1, 2, 4, 10])
            elif style == "near":
                n = s * self.pick([1, 2, 4]) + self.pick([-1, 1, 0])
            elif style == "large":
                n = s * self.rnd.randint(5, 45) + self.rnd.randint(0, s)
            elif style == "random":
                n = self.rnd.randint(1, 3 * s)
            else:
                n = self.pick([1, 2, s - 1, s, s + 1, 4 * s, 4 * s - 1, 30 * s, self.rnd.randint(1, 6 * s), 0])
            if r < 0.06:
                out.append(0)
            n = max(0, min(n, left))
            out.append(n)
            left -= n
        if left:
            out.append(left)
        return out

    def windows(self, rate, cap_ms):
        w = [400, 3000, cap_ms, self.rnd.randint(max(1, 1000 // rate + 1), cap_ms), self.rnd.randint(1, max(2, cap_ms // 3)),
             cap_ms + self.pick([1, 60, 99, 100, 101, 1000])]
        return sorted({x for x in w if rate * x >= 1000})


def formats(d):
    """The sample formats in which this signal has the same values."""
    if d["f32"]:
        ok = {F32, F64}
    elif d["low"]:
        ok = {I32, F64}
    else:
        ok = {I16, I32, F32, F64}
    if d["e"]:
        ok -= {I16, I32}
        if not -100 < d["e"] < 100 and not d["f32"]:
            ok -= {F32}
    for _, _, q in d["sp"]:
        if q not in ("min", "max"):
            ok -= {I16, I32}
        if q in ("den", "big") and not d["f32"]:
            ok -= {F32}
    return sorted(ok)


def impulse_energy(rate, frames):
    """Of the K-weighted unit impulse (only to choose levels; what is right is decided elsewhere)."""
    k = math.tan(math.pi * 1681.974450955533 / rate)
    vh = 10 ** (3.999843853973347 / 20)
    vb, q = vh ** 0.4996667741545416, 0.7071752369554196
    d = 1 + k / q + k * k
    pb = [(vh + vb * k / q + k * k) / d, 2 * (k * k - vh) / d, (vh - vb * k / q + k * k) / d]
    pa = [1, 2 * (k * k - 1) / d, (1 - k / q + k * k) / d]
    k, q = math.tan(math.pi * 38.13547087602444 / rate), 0.5003270373238773
    d = 1 + k / q + k * k
    rb, ra = [1, -2, 1], [1, 2 * (k * k - 1) / d, (1 - k / q + k * k) / d]
    x = [1.0] + [0.0] * (frames - 1)
    for b, a in ((pb, pa), (rb, ra)):
        y = []
        for n in range(frames):
            y.append(sum(b[j] * x[n - j] for j in range(3) if n >= j) - sum(a[j] * y[n - j] for j in (1, 2) if n >= j))
        x = y
    return sum(v * v for v in x) / frames


class Walk:
    """A random sequence of calls on one instance, with the settings shadowed so that sizes make sense."""

    def __init__(self, mk, rec, api=0, ch=2, rate=48000, mode=FULL, sixteen=True, fmts=None, program=None):
        self.mk, self.rec, self.api, self.mode = mk, rec, api, mode
        self.ch, self.rate = ch, rate
        self.i = rec.new(ch, rate, mode, api)
        self.ch0, self.rate0 = ch, rate
        self.roles = default_map(ch)
        self.log = []
        self.win = 3000 if mode & S == S else 400
        self.pos = 0
        self.fmts = fmts
        self.sixteen = sixteen
        self.prog = program or {}
        self.sig = None
        self.left = None            # samples that may still be fed, if that is limited
        self.new_signal()

    def do(self, name, *args):
        getattr(self.rec, name)(self.i, *args)
        self.log.append((name, args))

    def new_signal(self, **kw):
        d = dict(self.prog)
        d.update(kw)
        self.sig = self.mk.program(self.rec, self.rate, self.ch, **d)
        self.pos = 0

    def add(self, n, seed=False, sig=None, frm=None):
        ok = formats(self.rec.sigs[(sig or self.sig) - 1])
        fmt = self.mk.pick([f for f in ok if not self.fmts or f in self.fmts] or ok)
        lay = 0 if self.api else self.mk.pick([0, 1])
        if seed and self.api:
            return
        if self.left is not None:
            n = max(min(n, 1), min(n, self.left // self.ch))
            self.left -= n * self.ch
        self.do("add", sig or self.sig, self.pos if frm is None else frm, n, fmt, lay, seed)
        if frm is None:
            self.pos += n

    def obs(self, n=3):
        ws = self.mk.windows(self.rate, self.win)
        self.mk.rnd.shuffle(ws)
        self.do("obs", tuple(ws[:n]))

    def map_now(self):
        return list(self.roles)

    def change(self, ch, rate):
        self.do("change", ch, rate)
        if ch != self.ch and 1 <= ch <= 64 and 16 <= rate <= 2822400:
            self.roles = default_map(ch)
        if 1 <= ch <= 64 and 16 <= rate <= 2822400:
            self.ch, self.rate = ch, rate
            self.new_signal()

    def set_win(self, ms):
        self.do("win", ms)
        self.win = max(ms, 3000 if self.mode & S == S else 400)

    def role(self, c=None, role=None):
        c = self.mk.rnd.randrange(self.ch) if c is None else c
        role = self.mk.pick([0, 0, 1, 2, 3, 4, 5, 9, 10, 11, 12] + ROLES) if role is None else role
        self.do("role", c, role)
        if role != 6 or self.ch == 1:
            self.roles[c] = role

    def size(self):
        s = hop(self.rate)
        r = self.mk.rnd
        return self.mk.pick([1, 2, s - 1, s, s + 1, 3 * s, 4 * s - 1, 4 * s, 4 * s + 1, 10 * s, 30 * s, 30 * s + 1,
                             r.randint(1, 5 * s), r.randint(1, 35 * s)])

    def step(self, ops):
        op = self.mk.rnd.choices(list(ops), weights=list(ops.values()))[0]
        if op == "add":
            self.add(self.size())
        elif op == "long":
            self.add(self.mk.rnd.randint(20, 200 if self.rate < 200 else 40) * hop(self.rate) + self.mk.rnd.randint(0, hop(self.rate)))
        elif op == "small":
            self.add(self.mk.rnd.randint(1, max(1, hop(self.rate))))
        elif op == "empty":
            self.add(0, seed=not self.api and self.mk.rnd.random() < 0.4)
        elif op == "seed":
            self.add(self.mk.rnd.randint(1, 4 * hop(self.rate)), seed=True)
        elif op == "reset":
            if not self.api:
                self.do("reset")
        elif op == "rate":
            self.change(self.ch, self.mk.pick(self.rates))
        elif op == "chan":
            self.change(self.mk.pick(self.chs), self.rate)
        elif op == "both":
            self.change(self.mk.pick(self.chs), self.mk.pick(self.rates))
        elif op == "same":
            self.change(self.ch, self.rate)
        elif op == "win":
            self.set_win(self.mk.pick([1, 399, 400, 401, 500, 1000, 2999, 3000, 3001, 3050, 4000, 5210, 10000] * 3
                                      + [65535, 65536, 65600, 100000 + self.mk.rnd.randint(0, 400000)] * (self.ch * self.rate < 1000)))
        elif op == "hist":
            self.do("hist", self.mk.pick([0, 400, 500, 799, 1000, 2999, 3000, 3300, 6000, 9100, 30000, 100000, 6553600, 2**31, 2**32 - 1]))
        elif op == "role":
            self.role()
        elif op == "map":
            if not self.api:
                self.roles = [self.mk.pick([0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 16, 31]) for _ in range(self.ch)]
                self.do("map", list(self.roles))
        elif op == "signal":
            self.new_signal()
        else:
            raise KeyError(op)
        return op

    def steps(self, n, ops, observe=1.0):
        for _ in range(n):
            self.step(ops)
            if self.mk.rnd.random() < observe:
                self.obs()

    rates = TINY + [8000]
    chs = [1, 2, 3, 4, 5, 6, 7]


def replay(rec, j, log, change=None):
    """The same calls on another instance; change maps an entry to a list of entries."""
    for entry in log:
        for name, args in (change(entry) if change else [entry]):
            getattr(rec, name)(j, *args)


ALLOPS = dict(add=10, small=6, empty=1, seed=2, reset=1, rate=1, chan=1, both=1, same=1, win=2, hist=2, role=2, map=1, signal=3)


def walk(seed, name, ops, steps, rate, ch, mode, api=0, observe=0.8, **kw):
    mk = Maker(seed, name)
    rec = Rec(name)
    rates = kw.pop("rates", None)
    chs = kw.pop("chs", None)
    w = Walk(mk, rec, api, ch, rate, mode, **kw)
    if rates:
        w.rates = rates
    if chs:
        w.chs = chs
    for _ in range(steps):
        w.step(ops)
        if mk.rnd.random() < observe:
            w.obs()
    w.obs(6)
    return rec
