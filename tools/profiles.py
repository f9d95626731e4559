"""Which executions are recorded for each property, and which disagreements with the specification
break it."""
import re
from scenarios import *

U32 = 2**32 - 1
ENVS = [0x1F80, 0x9F80, 0x1FC0, 0x9FC0, 0x3F80, 0x5F80, 0x7F80, 0xFFC0, 0xDFC0]   # FTZ, DAZ, rounding


def rmode(mk, must=0, of=(S, I, LRA, SP, TP, HIST), p=0.55):
    m = must | M
    for f in of:
        if mk.rnd.random() < p:
            m |= f
    return m


def wch(mk):
    return mk.pick([1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8] * 3 + [9, 12, 16, 17, 24]) if mk.rnd.random() < 0.85 else mk.rnd.randint(1, 64)


def usual(seed, scale, name, n, ops, mode, chs=(1, 2, 2, 2, 3, 5, 6, 8), steps=9, program=None, left=900000, rates=STD, step=None):
    """The usual sample rates, where a second is many frames."""
    out = []
    for k in range(n * scale):
        mk = Maker(seed, f"{name}usual{k}")
        rec = Rec(f"{name}usual{k}")
        w = Walk(mk, rec, int(k % 4 == 3), mk.pick(chs), mk.pick(rates), mode(mk), program=program)
        w.rates, w.chs, w.left = rates, list(chs), left
        for _ in range(steps):
            (step or Walk.step)(w, ops)
            if mk.rnd.random() < 0.8:
                w.obs()
        w.obs(5)
        out.append(rec)
    return out


def wide(seed, scale, name, n, ops, mode, steps=14, program=None, rates=TINY, step=None):
    """Any number of channels."""
    out = []
    for k in range(n * scale):
        mk = Maker(seed, f"{name}wide{k}")
        rec = Rec(f"{name}wide{k}")
        w = Walk(mk, rec, int(k % 4 == 3), mk.rnd.randint(1, 64), mk.pick(rates), mode(mk), program=program)
        w.rates, w.chs, w.left = rates, range(1, 65), 500000
        for c in range(w.ch):        # most channels are unused by default
            if mk.rnd.random() < 0.3:
                w.role(c)
        for _ in range(steps):
            if (step or Walk.step)(w, ops) in ("chan", "both") and mk.rnd.random() < 0.7:
                for c in mk.rnd.sample(range(w.ch), (w.ch + 3) // 4):
                    w.role(c)
            if mk.rnd.random() < 0.8:
                w.obs()
        w.obs(5)
        out.append(rec)
    return out


def long_calls(seed, scale, name, n, frames, mode):
    """Calls of many frames: one instance gets them whole, one in pieces."""
    out = []
    for k in range(n * scale):
        mk = Maker(seed, f"{name}{k}")
        rec = Rec(f"{name}{k}")
        rate = mk.pick([8000, 11025, 44100, 48000, 96000])
        ch = mk.pick([1, 2, 2, 3, 4, 5, 6, 8])
        md = mode(mk)
        i, j = rec.new(ch, rate, md), rec.new(ch, rate, md)
        total = mk.rnd.randint(*frames) // (1 if ch < 4 else 2)
        sig = mk.program(rec, rate, ch, kind=mk.pick(["noise", "sq", "imp"]), lo=-30, stretch=total // 5 + 1)
        d = rec.sigs[sig - 1]
        at = [total - 1, total - 2, mk.rnd.randint(total // 2, total - 1)]
        d["sp"] = [[mk.rnd.randint(1, ch), p, "min"] for p in mk.rnd.sample(at, 2)]
        rec.add(i, sig, 0, total, mk.fmt(), mk.pick([0, 1]))
        pos = 0
        while pos < total:
            x = min(total - pos, mk.rnd.randint(1, 20000))
            rec.add(j, sig, pos, x, mk.fmt(), mk.pick([0, 1]))
            pos += x
        for x in (hop(rate) // 7 + 60, 3 * hop(rate)):
            ws = (400, 390, 1000)
            rec.obs(i, ws)
            rec.obs(j, ws)
            rec.eq(i, j, ACCUM)
            for a in (i, j):
                rec.add(a, sig, total, x, mk.fmt(), mk.pick([0, 1]))
            total += x
        rec.obs(i, ws)
        rec.obs(j, ws)
        rec.eq(i, j, ALLKEYS)
        out.append(rec)
    return out


def secs(mk, rate, lo, hi):
    return int(hop(rate) * 10 * mk.rnd.uniform(lo, hi)) + mk.rnd.randint(0, hop(rate))


def rates_mix(mk):
    """mostly tiny rates: short arithmetic, many blocks"""
    r = mk.rnd.random()
    return mk.pick(TINY) if r < 0.85 else mk.pick(LOWR) if r < 0.97 else mk.pick(MID)


# ---------------------------------------------------------------- C01 splitting
def p01(seed, scale):
    out = []
    for k in range(56 * scale):
        mk = Maker(seed, f"split{k}")
        rec = Rec(f"split{k}")
        rate, ch = (rates_mix(mk), wch(mk))
        if k % 14 == 12:
            rate, ch = mk.pick(STD), mk.pick([1, 2, 2, 6])
        elif rate > 2000:
            ch = mk.pick([1, 2, 3, 5])
        mode = mk.pick([FULL, FULL, FULL | HIST, rmode(mk), rmode(mk)])
        api = int(k % 4 == 3)
        w = Walk(mk, rec, api, ch, rate, mode, program=dict(e=mk.pick([0, 0, 0, 0, 4, -13, -27, -40, -52, -70])))
        w.rates = TINY if rate < 200 else [rate]
        small = rate > 200
        # the same beginning for all instances of the trace
        w.steps(mk.pick([0, 0, 2, 4]) if not small else 0, ALLOPS, 0)
        w.new_signal()
        prefix = list(w.log)
        stream = []
        total = secs(mk, w.rate, 0.5, 14 if not small else 1.2 if w.rate > 50000 else 3.5)
        cuts = mk.cut(total, w.rate)
        marks = set(mk.rnd.sample(range(len(cuts)), min(len(cuts), 2 if small else 4))) | {len(cuts) - 1}
        last = None
        pos = 0
        for j, n in enumerate(cuts):
            if n == 0 and mk.rnd.random() < 0.7:
                # an empty call: the observations around it must be the same
                w.obs()
                keep = rec.cmds[-1]
                w.add(0)
                twin = clone_state(rec, w, prefix, stream, w.rate)
                ws = keep_windows(keep)
                rec.obs(w.i, ws)
                rec.obs(twin, ws)
                rec.eq(w.i, twin, ALLKEYS)
                rec.destroy(twin)
                continue
            w.add(n)
            if n:
                stream.append((w.sig, pos, n))
                last = (pos, n)
                pos += n
            if j in marks and pos:
                ws = tuple(mk.windows(w.rate, w.win)[:4])
                rec.obs(w.i, ws)
                b = fresh_like(rec, w, prefix)
                fmts = formats(rec.sigs[w.sig - 1])
                rec.add(b, w.sig, 0, pos, mk.pick(fmts), 0 if api else mk.pick([0, 1]))
                rec.obs(b, ws)
                rec.eq(w.i, b, ACCUM)
                rec.destroy(b)
                c = fresh_like(rec, w, prefix)
                rec.add(c, w.sig, 0, last[0], mk.pick(fmts), 0)
                rec.add(c, w.sig, last[0], last[1], mk.pick(fmts), 0)
                rec.obs(c, ws)
                rec.eq(w.i, c, ALLKEYS)
                rec.destroy(c)
        out.append(rec)
    out += long_calls(seed, scale, "long", 5, (66000, 150000), lambda mk: mk.pick([FULL, FULL | HIST]))
    return out


def keep_windows(cmd):
    t = cmd[0].split()[2]
    return () if t == "-" else tuple(int(x) for x in t.split(","))


def fresh_like(rec, w, prefix):
    j = rec.new(w.ch0, w.rate0, w.mode, w.api)
    replay(rec, j, [e for e in prefix if e[0] != "obs"])
    return j


def clone_state(rec, w, prefix, stream, rate):
    j = fresh_like(rec, w, prefix)
    for sig, pos, n in stream:
        rec.add(j, sig, pos, n)
    return j


# ---------------------------------------------------------------- C02 formats and layouts
def p02(seed, scale):
    out = []
    variants = [(f, l) for f in (I16, I32, F32, F64) for l in (0, 1)]
    for k in range(76 * scale):
        mk = Maker(seed, f"fmt{k}")
        rec = Rec(f"fmt{k}")
        ch = k % 76 + 1 if k % 76 < 64 else mk.pick([1, 2, 3, 4, 5, 6, 8])
        rate = mk.pick([r for r in TINY if r < 60]) if ch > 8 else rates_mix(mk)
        if k % 76 > 70:
            rate = mk.pick([96000, 88200, 192000, 48000])
        mode = mk.pick([FULL, FULL, TP | I, SP | S, FULL | HIST])
        kind = mk.pick([0, 0, 0, 1, 2])      # 0: 16 bit values everywhere; 1: i32 against f64; 2: f32 against f64
        use = variants if kind == 0 else [(f, l) for f, l in variants if f in ((I32, F64) if kind == 1 else (F32, F64))]
        sig = mk.program(rec, rate, ch, fmt16=kind == 0, lo=-40)
        d = rec.sigs[sig - 1]
        if kind == 2:
            d["low"], d["f32"] = 1, 1
        if mk.rnd.random() < 0.6:
            d["sp"] = [[mk.rnd.randint(1, ch), mk.rnd.randint(0, hop(rate) * 6), mk.pick(["min", "max"])] for _ in range(4)]
            if kind == 2:
                for x in d["sp"]:
                    x[2] = "min"
        total = secs(mk, rate, 0.3, 0.9 if rate > 60000 else 1.2 if ch > 8 else 3.8)
        cuts = [n for n in mk.cut(total, rate, mk.pick(["random", "boundary", "mixed", "large"])) if n][:12]
        insts = [(rec.new(ch, rate, mode), f, l) for f, l in use]
        mixed = rec.new(ch, rate, mode)
        capi = rec.new(ch, rate, mode, 1)
        pos = 0
        for j, n in enumerate(cuts):
            sd = mk.rnd.random() < 0.25
            for i, f, l in insts:
                rec.add(i, sig, pos, n, f, l, sd)
            f, l = mk.pick(use)
            rec.add(mixed, sig, pos, n, f, l, sd)
            if not sd and capi:
                rec.add(capi, sig, pos, n, mk.pick([f for f, _ in use]), 0)
            elif capi:
                rec.destroy(capi)
                capi = 0
            pos += n
            if j == len(cuts) - 1 or mk.rnd.random() < 0.4:
                ws = tuple(mk.windows(rate, 3000 if mode & S == S else 400)[:2])
                base = next(i for i, f, l in insts if f == F64 and l == 0)
                rec.obs(base, ws)
                for i in [x for x, _, _ in insts] + [mixed] + ([capi] if capi else []):
                    if i != base:
                        rec.obs(i, ws)
                        rec.eq(i, base, ALLKEYS)
        out.append(rec)
    out += long_calls(seed, scale, "longfmt", 4, (66000, 140000), lambda mk: mk.pick([FULL, TP, SP | I]))
    return out


# ---------------------------------------------------------------- C03 windows
def p03(seed, scale):
    out = []
    ops = dict(add=8, small=5, empty=1, win=2.5, seed=1, reset=0.4, rate=0.5, chan=0.4, signal=2, role=0.4)
    for k in range(150 * scale):
        mk = Maker(seed, f"win{k}")
        rate = rates_mix(mk)
        rec = walk(seed, f"win{k}", ops, 45 if rate < 200 else 8, rate, mk.pick([1, 2, 3, 5, 6]), rmode(mk, mk.pick([M, S])),
                   api=int(k % 4 == 3), observe=0.9, rates=TINY if rate < 200 else [8000, 11025, rate])
        out.append(rec)
    out += usual(seed, scale, "win", 10, dict(ops, long=1), lambda mk: rmode(mk, mk.pick([M, S])))
    out += wide(seed, scale, "win", 20, ops, lambda mk: rmode(mk, mk.pick([M, S])))
    for k in range(24 * scale):      # silence, then sound, then silence again
        mk = Maker(seed, f"silence{k}")
        rec = Rec(f"silence{k}")
        rate = mk.pick(TINY)
        w = Walk(mk, rec, k % 2, mk.pick([1, 2, 6]), rate, FULL)
        zero = rec.sig("zero")
        if mk.rnd.random() < 0.4:
            w.set_win(mk.rnd.randint(3000, 9000))
        w.obs()
        for _ in range(mk.rnd.randint(1, 4)):
            w.add(w.size(), sig=zero, frm=0)
            w.obs()
        w.add(w.size())
        w.obs(6)
        for _ in range(5):
            w.add(w.size(), sig=zero, frm=0)
            w.obs(6)
        out.append(rec)
    for k in range(10 * scale):      # the ring buffer many times around
        mk = Maker(seed, f"ring{k}")
        rate = mk.pick([r for r in TINY if r < 100] + [126])
        rec = Rec(f"ring{k}")
        w = Walk(mk, rec, 0, mk.pick([1, 2, 3]), rate, mk.pick([M, S]))
        for _ in range(3):
            w.set_win(mk.rnd.randint(300, 7000))
            for _ in range(40):
                w.add(mk.rnd.randint(1, 40 * hop(rate)))
                w.obs(4)
        out.append(rec)
    for k in range(8 * scale):       # long windows, exactly full and many times around
        mk = Maker(seed, f"bigwin{k}")
        rec = Rec(f"bigwin{k}")
        rate = mk.pick([4000, 8000, 11025, 22050, 44100, 48000])
        ch = mk.pick([1, 2, 2, 3])
        w = Walk(mk, rec, int(k % 3 == 2), ch, rate, mk.pick([M, S]))
        ms = mk.pick([4000, 6000, 7000, 10000, 3050, 5210, 30000 if rate < 12000 else 8000])
        w.set_win(ms)
        cap = -(-(rate * ms // 1000) // hop(rate)) * hop(rate)
        for r in range(3):
            while w.pos < (r + 1) * cap:
                left = (r + 1) * cap - w.pos
                w.add(min(left, mk.rnd.randint(1, cap // 2)))
            rec.obs(w.i, (ms, ms // 2, 3000, ms - 1, ms - 10, 100))
            w.add(mk.rnd.randint(1, hop(rate)))
            rec.obs(w.i, (ms, ms // 2, 3000, ms - 1, ms - 10, 100))
        out.append(rec)
    for k in range(4 * scale):       # windows of minutes: rate times milliseconds beyond 31 and 32 bits
        mk = Maker(seed, f"minutes{k}")
        rec = Rec(f"minutes{k}")
        rate = mk.pick([8000, 11025, 22050, 44100, 48000, 96000])
        w = Walk(mk, rec, int(k % 4 == 3), 1, rate, mk.pick([M, S]))
        ms = mk.pick([2**32, 2**31, 2**32 + mk.rnd.randint(1, 2**30)]) // rate + mk.rnd.randint(1, 900)
        w.set_win(ms)
        for n in (rate * mk.rnd.randint(1, 40) // 10, rate * 3, mk.rnd.randint(1, rate)):
            w.new_signal()
            w.add(n)
            rec.obs(w.i, (ms, ms - 1, ms // 2, ms + 2000, 400, 3000, 2**32 // rate + 1, 2**32 // rate + 7))
        out.append(rec)
    rates = EDGE + HIGH + [r for r in MID + LOWR]
    for k in range(len(rates)):
        mk = Maker(seed, f"rate{k}")
        rate = rates[k]
        rec = Rec(f"rate{k}")
        w = Walk(mk, rec, 0, 2 if rate < 400000 else 1, rate, S if rate < 200000 else M)
        for n in (hop(rate), 3 * hop(rate) - 1, 1, 1):
            w.add(n)
            w.obs(6)
        if rate < 100000:
            w.add(27 * hop(rate))
            w.obs(6)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C04 roles
def p04(seed, scale):
    out = []
    ops = dict(add=8, small=3, role=8, map=3, chan=0.8, seed=1, reset=0.3, rate=0.3, signal=2)
    for k in range(130 * scale):
        mk = Maker(seed, f"role{k}")
        ch = mk.pick([1, 1, 2, 3, 4, 5, 6, 7, 9])
        rec = walk(seed, f"role{k}", ops, 40, mk.pick(TINY), ch, mk.pick([FULL, FULL, FULL | HIST, S | I]), api=int(k % 4 == 3),
                   observe=0.8, chs=[1, 2, 4, 5, 6, 8], program=dict(lo=-30))
        out.append(rec)
    out += usual(seed, scale, "role", 8, dict(ops, add=10), lambda mk: rmode(mk, I), steps=12)
    out += wide(seed, scale, "role", 20, ops, lambda mk: rmode(mk), steps=20)
    for k in range(64):              # defaults, and every channel's weight on its own
        mk = Maker(seed, f"default{k}")
        rec = Rec(f"default{k}")
        ch = k + 1
        i = rec.new(ch, 27, FULL, k % 2)
        rec.obs(i)
        cs = range(ch) if ch <= 8 else sorted(mk.rnd.sample(range(ch), 4))
        for c in cs:
            a = [0] * ch
            a[c] = 20000
            s = rec.sig("noise", a=a, s=mk.rnd.randint(1, 9999))
            rec.add(i, s, 0, 40, mk.fmt(), 0)
            rec.obs(i, (400, 3000))
            for role in mk.rnd.sample(ROLES, 5) if ch > 1 else ROLES:
                rec.role(i, c, role)
                rec.obs(i, (400, 1000))
                rec.add(i, s, 0, 3, mk.fmt(), 0)
                rec.obs(i, (400, 1000))
            rec.role(i, c, 0)
            rec.add(i, s, 100, 70, mk.fmt(), 0)
            rec.obs(i)
        for c in (ch, ch + 1, 255, 256, U32):
            rec.role(i, c, 1)
        rec.role(i, 0, 6)
        if k % 2 == 0:
            for m in ([], [1] * (ch - 1), [1] * (ch + 1), [6] * ch, [3] * (ch - 1) + [6], [31 - (x % 26) for x in range(ch)]):
                rec.map(i, m)
                rec.obs(i)
        if k < 12:
            rec.change(i, 12 - k, 20)
            rec.obs(i)
        out.append(rec)
    for k in range(30 * scale):      # roles do not touch peaks
        mk = Maker(seed, f"rolepeak{k}")
        rec = Rec(f"rolepeak{k}")
        ch = mk.pick([1, 2, 3, 4, 6])
        w = Walk(mk, rec, 0, ch, mk.pick(TINY), FULL)
        twin = rec.new(ch, w.rate, FULL)
        mark = 0
        for _ in range(15):
            w.steps(2, dict(role=3, map=1, add=3, small=3, seed=1), 0)
            new = w.log[mark:]
            mark = len(w.log)
            replay(rec, twin, [e for e in new if e[0] not in ("role", "map")])
            rec.obs(w.i)
            rec.obs(twin)
            rec.eq(w.i, twin, ["sp", "psp", "tp", "ptp"])
        out.append(rec)
    return out


# ---------------------------------------------------------------- C05 gating
def p05(seed, scale, hist=0, name="gate", must=I):
    out = []
    ops = dict(add=9, small=4, long=5, signal=6, reset=0.3, rate=0.4, chan=0.4, win=0.6, seed=0.5, role=0.3, same=0.2)
    for k in range(110 * scale):
        mk = Maker(seed, f"{name}{k}")
        rec = Rec(f"{name}{k}")
        rate = mk.pick(TINY) if k % 12 else mk.pick(LOWR)
        mode = must | hist | mk.pick([0, 0, S, SP, LRA, FULL])
        w = Walk(mk, rec, int(k % 4 == 3), mk.pick([1, 2, 2, 5]), rate, mode,
                 program=dict(stretch=None, lo=mk.pick([-95, -75, -50, -20]), e=mk.pick([0, 0, 0, 3, 8])))
        w.rates = TINY if rate < 200 else [rate]
        w.chs = [1, 2, 3]
        w.steps(40 if rate < 200 else 10, ops, 0.7)
        w.obs()
        out.append(rec)
    prog = dict(lo=-50)
    out += usual(seed, scale, name, 12, ops, lambda mk: rmode(mk, must | hist), program=prog)
    out += wide(seed, scale, name, 20, ops, lambda mk: rmode(mk, must | hist), program=prog)
    for k in range(3 * scale):       # many blocks
        mk = Maker(seed, f"{name}long{k}")
        rec = Rec(f"{name}long{k}")
        w = Walk(mk, rec, 0, 1, 16, must | hist, program=dict(stretch=300))
        for n in (3000, 1, 5000, 9000 if k else 24000, 7):
            w.new_signal()
            w.add(n)
            w.obs()
        out.append(rec)
    out += hours(seed, f"{name}hours", must | hist)
    return out


def hours(seed, name, mode, sizes=((500, 1100), (4100, 5200), (8150, 9000), (16384, 17000), (32768, 34000), (65537, 66000)), limit=None):
    """Programmes of more and more blocks, observed for some blocks in a row at each size."""
    out = []
    for k in range(2):
        mk = Maker(seed, f"{name}{k}")
        rec = Rec(f"{name}{k}")
        rate = 16                     # two frames to a hop
        w = Walk(mk, rec, int(k), 1, rate, mode)
        if limit:
            rec.hist(w.i, limit(mk))
        have = 0
        for lo, hi in sizes:
            n = mk.rnd.randint(lo, hi)
            w.new_signal(stretch=mk.pick([700, 3000, 9000]), lo=mk.pick([-9, -25, -75]), silent=0.1, kind=mk.pick(["noise", "sq"]))
            w.add((n - have) * 2)
            have = n
            for _ in range(5):
                w.obs(1)
                w.add(mk.pick([1, 2, 3, 62]))
            w.obs(1)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C06 loudness range
def p06(seed, scale, hist=0, name="range"):
    out = []
    ops = dict(long=10, add=4, small=2, signal=8, reset=0.2, rate=0.4, chan=0.3, win=0.5, seed=0.3, same=0.2)
    for k in range(110 * scale):
        mk = Maker(seed, f"{name}{k}")
        rec = Rec(f"{name}{k}")
        rate = mk.pick([r for r in TINY if r <= 60]) if k % 15 else mk.pick(LOWR)
        w = Walk(mk, rec, int(k % 4 == 3), mk.pick([1, 1, 2, 5]), rate, LRA | hist | mk.pick([0, 0, I, FULL]),
                 program=dict(stretch=hop(rate) * mk.pick([7, 23, 31, 60]), lo=mk.pick([-95, -70, -45, -12]), silent=0.3))
        w.rates = [r for r in TINY if r <= 60] if rate < 200 else [rate]
        w.chs = [1, 2]
        w.steps(32 if rate < 200 else 8, ops, 0.7)
        w.obs()
        out.append(rec)
    prog = dict(lo=-50)
    out += usual(seed, scale, name, 10, dict(ops, long=25), lambda mk: rmode(mk, LRA | hist), chs=(1, 1, 2, 2, 3, 6), program=prog, left=1500000)
    out += wide(seed, scale, name, 20, ops, lambda mk: rmode(mk, LRA | hist), program=prog, rates=[r for r in TINY if r <= 60])
    for k in range(3 * scale):
        mk = Maker(seed, f"{name}long{k}")
        rec = Rec(f"{name}long{k}")
        w = Walk(mk, rec, 0, 1, 16, LRA | hist, program=dict(stretch=300, lo=-60))
        for n in (3000, 1, 5000, 9000, 7):
            w.new_signal()
            w.add(n)
            w.obs()
        out.append(rec)
    out += hours(seed, f"{name}hours", LRA | hist)
    out += hours(seed, f"{name}days", LRA | hist, sizes=((10000, 40000), (656000, 660000)))[:1]
    return out


# ---------------------------------------------------------------- C07 histogram
def p07(seed, scale):
    out = [r for r in p05(seed, scale, HIST, "hgate") if not re.fullmatch(r"hgate\d+", r.name) or int(r.name[5:]) < 60 * scale]
    out += [r for r in p06(seed, scale, HIST, "hrange") if not re.fullmatch(r"hrange\d+", r.name) or int(r.name[6:]) < 60 * scale]
    mk = Maker(seed, "manyblocks")   # more blocks in a bin than fit 16 bits
    rec = Rec("manyblocks")
    i = rec.new(1, 18, FULL | HIST)
    loud = rec.sig("sq", a=[16000], p=2)
    quiet = rec.sig("sq", a=[mk.rnd.randint(3000, 9000)], p=2)
    for s, n in ((quiet, 400), (loud, 140000), (quiet, 7000), (loud, 3)):
        rec.add(i, s, 0, n)
        rec.obs(i)
    out.append(rec)
    for e in range(-12, 9):          # every bin
        mk = Maker(seed, f"bins{e}")
        rec = Rec(f"bins{e}")
        i = rec.new(1, 16, FULL | HIST)
        lev = sorted({round(16384 * 2 ** (x / 120)) for x in range(121)})
        sig = rec.sig("noise", a=[32767], s=77 + e, h=10, lev=lev, e=e)
        for j in range(0, len(lev), 4):
            rec.add(i, sig, j * 10, 40, F64)
            rec.obs(i)
        out.append(rec)
    rate = 16                        # one block just below and one just above every border
    e1 = impulse_energy(rate, 4 * hop(rate))
    for lot in range(0, 1001, 50):
        mk = Maker(seed, f"border{lot}")
        rec = Rec(f"border{lot}")
        i = rec.new(1, rate, I | LRA | HIST)
        for k in range(lot, min(lot + 50, 1001)):
            v = math.sqrt(10 ** ((k / 10 - 70 + 0.691) / 10) / e1)
            e = math.floor(math.log2(v)) + 1
            for a in (math.floor(v / 2.0 ** e * 32768), math.floor(v / 2.0 ** e * 32768) + 1):
                s = rec.sig("imp", a=[min(a, 32767)], e=e, p=1000)
                rec.add(i, s, 0, 4 * hop(rate))
                rec.obs(i)
                rec.reset(i)
        out.append(rec)
    ops = dict(long=5, add=4, hist=4, signal=4, win=0.5, chan=0.4, reset=0.3)
    for k in range(25 * scale):      # the history limit has no influence
        mk = Maker(seed, f"hhist{k}")
        rec = Rec(f"hhist{k}")
        w = Walk(mk, rec, 0, 1, mk.pick([16, 18, 27, 28, 30]), I | LRA | HIST, program=dict(lo=-60))
        w.chs, w.rates = [1, 2], [16, 18]
        w.steps(30, ops, 0.7)
        out.append(rec)
    for k in range(25 * scale):      # several histograms, and histograms with block lists
        mk = Maker(seed, f"hmulti{k}")
        out.append(group(mk, Rec(f"hmulti{k}"), lambda: I | LRA | mk.pick([HIST, HIST, HIST, 0])))
    return out


# ---------------------------------------------------------------- C08 sample peaks
def peaks(seed, scale, name, modes, rates, n, steps):
    out = []
    ops = dict(add=8, small=8, empty=2, seed=2, reset=0.8, rate=0.8, chan=0.8, same=0.3, win=0.3, signal=4, role=0.8)
    for k in range(n * scale):
        mk = Maker(seed, f"{name}{k}")
        rec = Rec(f"{name}{k}")
        big = k % 10 == 9
        rate = mk.pick(rates(k))
        ch = mk.rnd.randint(9, 64) if big else mk.pick([1, 2, 3, 4, 5, 6, 7, 8])
        kind = mk.pick([0, 0, 1, 2])
        w = Walk(mk, rec, int(k % 5 == 4), ch, rate, mk.pick(modes), sixteen=kind == 0,
                 fmts=[[I16, I32, F32, F64], [I32, F64], [F32, F64]][kind],
                 program=dict(kind=mk.pick([None, "noise", "imp", "sine"]), lo=-40, fmt16=kind == 0))
        w.rates = TINY + ([96000, 192000] if rate > 60000 else [])
        w.chs = [1, 2, 3, 4, 5, 6, 8] if not big else [ch, ch + 1, 64]
        spikes = ["min", "max"] if kind == 0 else ["min", "nz"]

        def dress():
            d = rec.sigs[w.sig - 1]
            if kind == 2:
                d["low"], d["f32"] = 1, 1
                d["e"] = mk.pick([0, 0, 0, -60, -126, -130, -140])      # down to the denormals of f32
                d["sp"] = []
            span = 3 * hop(w.rate)
            d["sp"] = [[mk.rnd.randint(1, w.ch), mk.pick([0, 1, span - 1, mk.rnd.randint(0, span)]), mk.pick(spikes)] for _ in range(mk.pick([0, 1, 3]))]
            if kind == 2:
                d["sp"] = [q[:2] + [mk.pick(["min", "nz", "den32"] if d["e"] == 0 else ["nz", "den32"])] for q in d["sp"]]
        dress()
        for _ in range(steps if rate < 60000 and not big else max(6, steps // 5)):
            before = w.sig
            w.step(ops) if rate < 60000 else w.step(dict(ops, add=0))
            if w.sig != before:
                dress()
            w.obs(1)
        out.append(rec)
    return out


def p08(seed, scale):
    out = peaks(seed, scale, "peak", [SP, SP, SP | I, FULL, TP, FULL | HIST],
                lambda k: TINY if k % 8 else [8000, 44100, 96000], 130, 50)
    out += grid(seed, "peakgrid", lambda mk, rec, i, ch, rate, sig, n: more(mk, rec, [i], sig, n, ()))
    return out + long_calls(seed, scale, "longpeak", 6, (66000, 200000), lambda mk: mk.pick([SP, FULL]))


# ---------------------------------------------------------------- C09 true peaks
def p09(seed, scale):
    out = p09a(seed, scale)
    extra = p09a(seed + 500, scale)[::4]     # built with the feature precision-true-peak
    for r in extra:
        r.name, r.precise = "fma-" + r.name, True
    return out + extra


def p09a(seed, scale):
    out = peaks(seed, scale, "tpeak", [TP, TP, TP | I, FULL],
                lambda k: TINY if k % 3 else [8000, 16000, 48000] + EDGE, 100, 40)
    for k in range(40 * scale):      # impulses around the ends of calls, where the history of the interpolator matters
        mk = Maker(seed, f"imp{k}")
        rec = Rec(f"imp{k}")
        rate = mk.pick([16, 34, 8000, 44100, 48000, 95999, 96000, 96001, 176400, 191999, 192000, 384000])
        ch = mk.pick([1, 2, 2, 3, 4, 5, 6, 8, 17, 64])
        i = rec.new(ch, rate, TP)
        sig = rec.sig("imp", a=[mk.rnd.randint(5000, 32767) for _ in range(ch)], p=mk.rnd.randint(2, 19))
        sig2 = rec.sig("sq", a=[mk.rnd.randint(500, 20000) for _ in range(ch)], p=mk.rnd.randint(1, 3))
        pos = 0
        for _ in range(40 if ch < 9 else 10):
            n = mk.pick([1, 1, 2, 3, 5, 11, 12, 13, 23, 24, 25, 47, 48, 49, 60])
            if mk.rnd.random() < 0.1:
                rec.role(i, mk.rnd.randrange(ch), mk.pick([0, 1, 4]))
            if mk.rnd.random() < 0.05:
                rec.change(i, ch, mk.pick([rate, 18, 96000, 192000]))
            elif mk.rnd.random() < 0.05:
                rec.reset(i)
            rec.add(i, mk.pick([sig, sig, sig2]), pos, n, mk.fmt(), mk.pick([0, 1]), mk.rnd.random() < 0.2)
            rec.obs(i)
            pos += n
        out.append(rec)
    out += grid(seed, "tpgrid", lambda mk, rec, i, ch, rate, sig, n: more(mk, rec, [i], sig, n, ()))
    out += long_calls(seed, scale, "longtp", 6, (66000, 200000), lambda mk: mk.pick([TP, TP, FULL]))
    return out


def grid(seed, name, between, api=lambda mk: 0, rates=((16, 95999), (96000, 191999), (192000, 400000))):
    """Every number of channels with every kind of interpolator: audio, something in between, audio."""
    out = []
    todo = [(ch, k) for ch in range(1, 65) for k in range(3) if k < 2 or ch % 3 == 0 or ch < 9]
    for j in range(0, len(todo), 6):
        mk = Maker(seed, f"{name}{j}")
        rec = Rec(f"{name}{j}")
        for ch, k in todo[j:j + 6]:
            rate = mk.rnd.randint(*rates[k])
            if k == 0 and (ch > 3 or mk.rnd.random() < 0.5):
                rate = mk.pick([r for r in TINY if r < 60])
            elif k == 0:
                rate = mk.pick([4000 + mk.rnd.randint(0, 1000), 8000, 48000, mk.rnd.randint(4000, 95999)])
            elif ch * rate > 2000000:
                rate = rates[k][0]
            i = rec.new(ch, rate, mk.pick([TP, TP, SP, TP | HIST | I]) if rate > 200 else mk.pick([FULL, TP, FULL | HIST]), api(mk))
            sig = rec.sig("noise", a=[mk.rnd.randint(3000, 32000) for _ in range(mk.rnd.randint(1, 7))], s=mk.rnd.randint(1, 9999),
                          h=mk.rnd.randint(20, 50), lev=mk.levels(-30, 0, 3))
            sp = rec.sigs[sig - 1]["sp"] = [[c, mk.rnd.randint(0, 90), "min"] for c in mk.rnd.sample(range(1, ch + 1), min(ch, 3))]
            sp += [[ch, mk.rnd.randint(91, 120), "min"], [1, mk.rnd.randint(91, 120), "min"]]
            n = mk.rnd.randint(10, 90)
            rec.add(i, sig, 0, n, mk.fmt(), 0)
            rec.obs(i, ())
            between(mk, rec, i, ch, rate, sig, n)
            rec.destroy(i)
        out.append(rec)
    return out


def more(mk, rec, insts, sig, n, keys, api=0):
    """Further audio for all of the instances, which must agree."""
    for _ in range(2):
        x = mk.rnd.randint(1, 60)
        for i in insts:
            rec.add(i, sig, n, x, mk.fmt(), 0 if api else mk.pick([0, 1]))
            rec.obs(i, ())
        for j in insts[1:]:
            rec.eq(insts[0], j, keys)
        n += x


# ---------------------------------------------------------------- C10 reset
def contaminate(mk, rec, w):
    """sometimes NaN, infinity, huge or denormal values before the interesting call"""
    if mk.rnd.random() < 0.5:
        s = rec.sig("noise", a=[20000], s=mk.rnd.randint(1, 999),
                    sp=[[mk.rnd.randint(1, w.ch), mk.rnd.randint(0, 5), mk.pick(["nan", "inf", "ninf", "big", "den"])]])
        w.add(mk.rnd.randint(6, 6 * hop(w.rate) + 6), seed=mk.rnd.random() < 0.4, sig=s, frm=0)


NOSAME = dict(ALLOPS)


def p10(seed, scale):
    out = []
    for k in range(150 * scale):
        mk = Maker(seed, f"reset{k}")
        rec = Rec(f"reset{k}")
        rate = mk.pick(TINY) if k % 10 else mk.pick([8000] + STD)
        if rate > 200:
            w = Walk(mk, rec, 0, mk.pick([1, 2, 2, 3, 6]), rate, mk.pick([rmode(mk, TP), FULL, FULL | HIST]))
            w.rates, w.chs, w.left = [rate, 8000], [1, 2], 120000
            pre = dict(small=5, win=1, hist=1, role=1, seed=1)
        else:
            w = Walk(mk, rec, 0, wch(mk), rate, mk.pick([FULL, FULL, FULL | HIST, rmode(mk)]))
            pre = dict(ALLOPS, reset=0.2, long=2)
        hist = None
        for rnd in range(2):
            mark = len(w.log)
            w.steps(mk.rnd.randint(1, 12 if rate < 200 else 5), pre, 0.3)
            contaminate(mk, rec, w)
            for name, args in w.log[mark:]:
                if name == "hist":
                    hist = args[0]
            w.do("reset")
            b = rec.new(w.ch, w.rate, w.mode)
            rec.map(b, w.map_now())
            rec.win(b, w.win)
            if hist is not None:
                rec.hist(b, hist)
            ws = tuple(mk.windows(w.rate, w.win)[:3])
            for _ in range(10 if rate < 200 else 3):
                rec.obs(w.i, ws)
                rec.obs(b, ws)
                rec.eq(w.i, b, ALLKEYS)
                mark = len(w.log)
                w.steps(mk.rnd.randint(1, 2), dict(pre, long=1), 0)
                if rate > 200:
                    w.add(mk.rnd.randint(1, 60))
                replay(rec, b, w.log[mark:])
                for name, args in w.log[mark:]:
                    if name == "hist":
                        hist = args[0]
            rec.obs(w.i, ws)
            rec.obs(b, ws)
            rec.eq(w.i, b, ALLKEYS)
        out.append(rec)

    def between(mk, rec, i, ch, rate, sig, n):
        rec.reset(i)
        j = rec.new(ch, rate, rec.modes[i])
        rec.obs(i, ())
        rec.obs(j, ())
        rec.eq(i, j, ALLKEYS)
        more(mk, rec, [i, j], sig, mk.pick([0, n]), ALLKEYS)
        rec.destroy(j)
    return out + grid(seed, "resetgrid", between)


# ---------------------------------------------------------------- C11 reconfiguration
def p11(seed, scale):
    out = []
    for k in range(150 * scale):
        mk = Maker(seed, f"change{k}")
        rec = Rec(f"change{k}")
        api = int(k % 4 == 3)
        hi = k % 11 == 10
        w = Walk(mk, rec, api, wch(mk), mk.pick([8000] + STD) if hi else mk.pick(TINY), mk.pick([FULL, FULL, FULL | HIST, rmode(mk), TP]))
        if hi:
            w.rates, w.chs = [8000] + STD, [1, 2, 3, 6]
        pre = dict(small=6, win=1, hist=1, role=1, seed=1) if hi else dict(ALLOPS, rate=0.3, chan=0.3, both=0.3, long=2)
        for rnd in range(3):
            w.steps(mk.rnd.randint(1, 8), pre, 0.3)
            if not api:
                contaminate(mk, rec, w)
            w.obs(2)
            ch, rate = w.ch, w.rate
            if rnd == 1:
                # the present values: nothing at all changes
                prefix = [e for e in w.log]
                twin = rec.new(w.ch0, w.rate0, w.mode, api)
                replay(rec, twin, [e for e in prefix if e[0] != "obs"])
                w.change(w.ch, w.rate)
                ws = tuple(mk.windows(w.rate, w.win)[:3])
                for _ in range(4):
                    rec.obs(w.i, ws)
                    rec.obs(twin, ws)
                    rec.eq(w.i, twin, ALLKEYS)
                    mark = len(w.log)
                    w.add(mk.rnd.randint(1, 2 * hop(w.rate)))
                    replay(rec, twin, w.log[mark:])
                rec.destroy(twin)
                continue
            w.step(dict(rate=2, chan=2, both=1))
            if (w.ch, w.rate) == (ch, rate):
                continue
            b = rec.new(w.ch, w.rate, w.mode, api)
            for c, r in enumerate(w.map_now()):
                rec.role(b, c, r)
            rec.win(b, w.win)
            ws = tuple(mk.windows(w.rate, w.win)[:3])
            for _ in range(8 if not hi else 3):
                rec.obs(w.i, ws)
                rec.obs(b, ws)
                rec.eq(w.i, b, ["m", "s", "w", "psp", "ptp", "cfg", "map"])
                mark = len(w.log)
                w.steps(mk.rnd.randint(1, 2), dict(small=5, add=0 if hi else 4, seed=1, role=0.5), 0)
                replay(rec, b, w.log[mark:])
            rec.destroy(b)
        w.obs()
        out.append(rec)

    def between(mk, rec, i, ch, rate, sig, n):
        # to a rate with the same kind of interpolator, to another one, to another number of channels
        ch2, rate2 = mk.pick([(ch, rate + 1), (ch, rate - 1 if rate > 20 else rate + 2), (ch, mk.pick([34, 96000, 100000, 192000]) if ch < 20 else 34), (ch % 64 + 1, rate)])
        if (ch2, rate2) == (ch, rate):
            rate2 += 1
        rec.change(i, ch2, rate2)
        j = rec.new(ch2, rate2, rec.modes[i])
        rec.obs(i, ())
        rec.obs(j, ())
        rec.eq(i, j, ["m", "s", "w", "psp", "ptp", "cfg", "map"])
        more(mk, rec, [i, j], sig, n, ["m", "s", "w", "psp", "ptp", "cfg", "map"])
        rec.destroy(j)
    return out + grid(seed, "changegrid", between)


# ---------------------------------------------------------------- C12 maximum window
def p12(seed, scale):
    out = []
    ops = dict(add=8, small=4, win=5, seed=0.7, hist=0.5, role=0.4, rate=0.5, chan=0.5, reset=0.4, signal=3, long=1)
    for k in range(130 * scale):
        mk = Maker(seed, f"maxwin{k}")
        rate = mk.pick(TINY) if k % 12 else mk.pick(LOWR)
        rec = walk(seed, f"maxwin{k}", ops, 40 if rate < 200 else 10, rate, mk.pick([1, 2, 3]),
                   mk.pick([FULL, FULL, FULL | HIST, rmode(mk), M]), api=int(k % 4 == 3), observe=0.85,
                   rates=TINY if rate < 200 else [rate, 8000], chs=[1, 2, 3])
        out.append(rec)
    out += usual(seed, scale, "maxwin", 12, ops, rmode)
    out += wide(seed, scale, "maxwin", 20, ops, rmode)
    for k in range(40 * scale):      # against a twin: the same value, values below the minimum, and what is kept
        mk = Maker(seed, f"samewin{k}")
        rec = Rec(f"samewin{k}")
        w = Walk(mk, rec, 0, mk.pick([1, 2, 3]), mk.pick(TINY), mk.pick([FULL, FULL | HIST, rmode(mk)]))
        w.steps(mk.rnd.randint(2, 10), dict(ALLOPS, long=1), 0)
        twin = rec.new(w.ch0, w.rate0, w.mode)
        replay(rec, twin, w.log)
        low = 3000 if w.mode & S == S else 400
        w.set_win(w.win) if w.win > low or k % 2 else w.set_win(mk.rnd.randint(0, low))
        ws = tuple(mk.windows(w.rate, w.win)[:3])
        for _ in range(5):
            rec.obs(w.i, ws)
            rec.obs(twin, ws)
            rec.eq(w.i, twin, ALLKEYS)
            mark = len(w.log)
            w.add(mk.rnd.randint(1, 3 * hop(w.rate)))
            replay(rec, twin, w.log[mark:])
        w.set_win(mk.rnd.randint(w.win + 1, w.win + 4000))
        for _ in range(4):
            rec.obs(w.i, ws)
            rec.obs(twin, ws)
            rec.eq(w.i, twin, ["sp", "psp", "tp", "ptp", "cfg", "map"])
            mark = len(w.log)
            w.add(mk.rnd.randint(1, 3 * hop(w.rate)))
            replay(rec, twin, w.log[mark:])
        out.append(rec)
    for k in range(16 * scale):      # windows of minutes and hours
        mk = Maker(seed, f"longwin{k}")
        rec = Rec(f"longwin{k}")
        w = Walk(mk, rec, int(k % 4 == 3), mk.pick([1, 1, 2, 3]), mk.pick([16, 18, 27, 40]), mk.pick([FULL, rmode(mk), M]), program=dict(lo=-30))
        w.chs, w.rates = [1, 2, 3], [16, 18, 27, 40]
        for _ in range(3):
            w.steps(mk.rnd.randint(1, 3), dict(long=3, small=1, rate=0.3, chan=0.3, signal=1), 0.3)
            w.set_win(mk.pick([65535, 65536, 99999, 100000, 600000, 600001, 3600000, 24 * 3600000, 2**31 // w.rate + mk.rnd.randint(0, 99),
                               mk.rnd.randint(60000, 7200000)]))
            w.steps(mk.rnd.randint(1, 4), dict(long=3, add=1, small=1, signal=1), 0.5)
            rec.obs(w.i, (w.win, w.win + 100, w.win // 2, mk.rnd.randint(3000, w.win), w.win - 1))
        out.append(rec)
    for k in range(12):              # windows that cannot be allocated
        mk = Maker(seed, f"nomem{k}")
        rec = Rec(f"nomem{k}")
        rate, ch = mk.pick([(768000, 6), (2822400, 2), (384000, 11), (2000000, 3), (192000, 22)])
        mode = M | mk.pick([0, SP, TP, I])
        api = k % 3 == 2
        i = rec.new(ch, rate, mode, int(api))
        sig = mk.program(rec, rate, ch, lo=-20)
        twin = rec.new(ch, rate, mode, int(api))
        pos = 0
        for j in range(4):
            n = mk.rnd.randint(50, 500)
            for x in (i, twin):
                rec.add(x, sig, pos, n)
            pos += n
            rec.win(i, mk.pick([U32, U32 - 1, U32 - 999]))
            if api:
                rec.win(i, mk.pick([2**32, 2**32 + 400, 2**63, 2**64 - 1]))
            rec.obs(i, (400, 100))
            rec.obs(twin, (400, 100))
            rec.eq(i, twin, ALLKEYS)
        out.append(rec)
    for k in range(4 * scale):       # refused in the middle of a block, and of the first block
        mk = Maker(seed, f"nomemblock{k}")
        rec = Rec(f"nomemblock{k}")
        ch = mk.pick([64, 63])
        rate = mk.rnd.randint(65100, 66000)
        api = k % 2
        i, twin = [rec.new(ch, rate, I | S if k % 4 == 2 else I, api) for _ in range(2)]
        for x in (i, twin):
            for c in range(1, 6) if api else ():
                rec.role(x, c, 0)
            if not api:
                rec.map(x, [1] + [0] * (ch - 1))
        sig = rec.sig("noise", a=[mk.rnd.randint(3000, 20000)] + [0] * (ch - 1), s=mk.rnd.randint(1, 999), h=4000,
                      lev=[32768, 20000, 9000, 30000])
        pos = 0
        for j, part in enumerate(mk.pick([(0.55, 0.6), (1.3, 0.3), (0.3, 0.45, 0.5)])):
            n = int(part * 4 * hop(rate)) + mk.rnd.randint(0, 99)
            for x in (i, twin):
                rec.add(x, sig, pos, n)
            pos += n
            rec.win(i, mk.pick([U32, U32 - 1, U32 - 999]))
            rec.obs(i, (400, 100))
            rec.obs(twin, (400, 100))
            rec.eq(i, twin, ALLKEYS)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C13 maximum history
def p13(seed, scale):
    out = []
    ops = dict(long=6, add=6, small=3, hist=6, signal=5, reset=0.3, rate=0.4, chan=0.3, win=0.4)
    for k in range(130 * scale):
        mk = Maker(seed, f"hist{k}")
        rec = Rec(f"hist{k}")
        mode = mk.pick([I, I | LRA, FULL, LRA, I | S])
        w = Walk(mk, rec, int(k % 4 == 3), mk.pick([1, 2]), mk.pick([r for r in TINY if r <= 50]), mode, program=dict(lo=-60))
        w.rates, w.chs = [r for r in TINY if r <= 50], [1, 2]
        w.steps(45, ops, 0.75)
        w.obs()
        out.append(rec)
    out += usual(seed, scale, "hist", 10, dict(ops, long=15, hist=8), lambda mk: rmode(mk, mk.pick([I, LRA]), (S, I, LRA, SP)), chs=(1, 1, 2, 2, 3, 6), steps=14, program=dict(lo=-50))
    out += wide(seed, scale, "hist", 20, ops, lambda mk: rmode(mk, mk.pick([I, LRA]), (S, I, LRA, SP)), steps=20, program=dict(lo=-50), rates=[r for r in TINY if r <= 50])
    for k in range(4 * scale):
        mk = Maker(seed, f"histlong{k}")
        rec = Rec(f"histlong{k}")
        w = Walk(mk, rec, 0, 1, 16, I | LRA, program=dict(stretch=700, lo=-50))
        for n, h in ((4000, None), (10, 300000), (3000, 90000), (500, 4200), (500, 2**32 - 1), (3000, 0)):
            if h is not None:
                rec.hist(w.i, h)
                w.obs()
            w.new_signal()
            w.add(n)
            w.obs()
        out.append(rec)
    for k in range(4 * scale):       # storage does not grow with the programme
        mk = Maker(seed, f"storage{k}")
        rec = Rec(f"storage{k}")
        w = Walk(mk, rec, int(k % 2), 1, 16, [I, I | LRA, I | S, LRA][k % 4], program=dict(stretch=700, lo=-30))
        rec.hist(w.i, mk.pick([0, 400, 3000, 30000]))
        w.obs(1)
        w.add(mk.rnd.randint(1000, 4000))
        w.obs(1)
        for _ in range(2):
            w.new_signal(silent=0)
            w.add(mk.rnd.randint(70000, 80000) * (6 if k % 4 == 3 else 1))
            w.obs(1)
        rec.hist(w.i, mk.pick([5000, 60000]))
        w.add(3000)
        w.obs(1)
        out.append(rec)
    out += hours(seed, "histhours", I | LRA)
    out += hours(seed, "histmany", I | LRA, limit=lambda mk: mk.pick([409500, 409600, 409700, 500000, 819200, 3276800, 6553600]) + mk.rnd.randint(0, 99))
    for k in range(40 * scale):      # small limits, blocks of extreme loudness that have left the memory
        mk = Maker(seed, f"histleave{k}")
        rec = Rec(f"histleave{k}")
        rate = mk.pick([r for r in TINY if r <= 30]) if k % 2 else 4000
        w = Walk(mk, rec, int(k % 4 == 3), 1, rate, mk.pick([I, I | LRA, LRA]))
        for _ in range(3):
            h = mk.pick([0, 400, 1000, 2999, 3000, 3500, 5999, 6000] + ([6500, 8999, 9000, 11999, 12000, 15000] if k % 2 else []))
            rec.hist(w.i, h)
            n = max(h // 100, h // 3000 * 10 + 30) + 4
            w.new_signal(e=mk.pick([0, 10, 20, 30, 40, 60, 90]), lo=-30, silent=0)
            w.add(mk.rnd.randint(1, n) * hop(w.rate))
            w.obs(1)
            w.new_signal(lo=-50, silent=0.5)
            if k % 4:
                w.add((n + 6) * hop(w.rate))
            w.obs(1)
            for _ in range(4):
                w.add(mk.rnd.randint(1, n) * hop(w.rate))
                w.obs(1)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C14 several instances
def group(mk, rec, mode, n=None, api=None, rates=[r for r in TINY if r <= 60], chs=(1, 2, 5), left=None):
    api = int(mk.rnd.random() < 0.3) if api is None else api
    n = n if n is not None else mk.pick([0, 1, 2, 2, 3, 4, 6])
    ws = []
    for _ in range(n):
        r = mk.pick(rates)
        w = Walk(mk, rec, api, mk.pick(chs), r, mode(), program=dict(lo=mk.pick([-80, -40, -10]), e=mk.pick([0, 0, 2])))
        w.left = left
        w.rates, w.chs = [r, 16], [1, 2]
        ws.append(w)
    for _ in range(4):
        for w in ws:
            if mk.rnd.random() < 0.75:
                w.steps(mk.rnd.randint(1, 4), dict(long=5, add=3, small=1, signal=3, hist=0.5, win=0.3, rate=0.3), 0)
        ids = [w.i for w in ws]
        for rng in (False, True):
            mk.rnd.shuffle(ids)
            rec.multi(ids, rng, api)
            if ids:
                rec.multi(ids[::-1], rng, api)
                sub = ids[: mk.rnd.randint(0, len(ids))]
                rec.multi(sub, rng, api)
                rec.multi(ids[:1], rng, api)
                rec.multi(ids + sub[:2], rng, api)      # the same instance again
                rec.multi([x for x in ids for _ in range(mk.pick([1, 1, 2, 3]))], rng, api)
        for w in ws:
            rec.obs(w.i)
    return rec


def crowd(seed, name, api, modes):
    """More instances than fit a byte, with different loudness."""
    mk = Maker(seed, name)
    rec = Rec(name)
    ids = []
    n = mk.rnd.randint(257, 262)
    for k in range(n):
        i = rec.new(1, 16, mk.pick(modes), api)
        s = rec.sig("noise", a=[mk.rnd.randint(20, 32000) if k != 3 else 32767], s=mk.rnd.randint(1, 9999))
        rec.add(i, s, 0, mk.rnd.randint(60, 70), F64, 0)
        ids.append(i)
    for rng in (False, True):
        for k in (n, 255, 256, 257, 128, n - 1):
            rec.multi(ids[:k], rng, api)
            rec.multi(ids[n - k:], rng, api)
    return rec


def p14(seed, scale):
    out = []
    for k in range(150 * scale):
        mk = Maker(seed, f"multi{k}")
        modes = [lambda: I | LRA, lambda: FULL, lambda: I | LRA | HIST, lambda: mk.pick([I | LRA, I | LRA | HIST]),
                 lambda: mk.pick([I, I | LRA, LRA, FULL, I | HIST, I | LRA | HIST]),
                 lambda: mk.pick([I | LRA, I | LRA, I | LRA, M, S])]
        out.append(group(mk, Rec(f"multi{k}"), modes[k % 6]))
    for k in range(12 * scale):      # many instances
        mk = Maker(seed, f"crowd{k}")
        out.append(group(mk, Rec(f"crowd{k}"), modes[k % 4], mk.pick([15, 16, 17, 18, 20, 33])))
    for k in range(8 * scale):       # usual rates, any number of channels
        mk = Maker(seed, f"multiusual{k}")
        out.append(group(mk, Rec(f"multiusual{k}"), modes[k % 4], mk.pick([2, 3]), rates=STD, left=500000))
    for k in range(12 * scale):
        mk = Maker(seed, f"multiwide{k}")
        out.append(group(mk, Rec(f"multiwide{k}"), modes[k % 4], mk.pick([2, 3, 4]), chs=range(1, 65)))
    out += [crowd(seed, "hundreds", 0, [I | LRA]), crowd(seed, "hhundreds", 0, [I | LRA | HIST])]
    for k in range(40 * scale):      # instances with very few blocks beside louder or quieter ones
        mk = Maker(seed, f"few{k}")
        rec = Rec(f"few{k}")
        mode = mk.pick([I | LRA, I | LRA | HIST])
        ids = []
        for j in range(mk.rnd.randint(2, 5)):
            rate = mk.pick([r for r in TINY if r <= 60])
            i = rec.new(1, rate, mode)
            n = mk.pick([0, 1, 1, 2, 3, 5, 30])
            s = mk.program(rec, rate, 1, lo=-15, kind="noise", silent=0)
            rec.sigs[s - 1]["a"] = [mk.pick([60, 500, 2000, 8000, 30000])]
            rec.add(i, s, 0, (n + 3) * hop(rate))
            if n < 5 and mk.rnd.random() < 0.4:
                rec.add(i, s, 0, 27 * hop(rate))
            ids.append(i)
        for _ in range(4):
            mk.rnd.shuffle(ids)
            for rng in (False, True):
                rec.multi(ids, rng, 0)
                rec.multi(ids[:2], rng, 0)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C15 seeding
def p15(seed, scale):
    out = []
    for k in range(90 * scale):
        mk = Maker(seed, f"seed{k}")
        rec = Rec(f"seed{k}")
        rate = mk.pick(TINY) if k % 10 else mk.pick([8000] + STD)
        ch = wch(mk) if k % 6 else mk.pick([9, 15, 16, 17, 18, 33, 64])
        mode = mk.pick([FULL, FULL | HIST, TP | I, rmode(mk)])
        w = Walk(mk, rec, 0, ch, rate, mode)
        for _ in range(mk.pick([0, 0, 2])):
            w.role()
        if k % 5 == 2:               # none is in use, or only one
            for c in range(ch):
                w.role(c, 0)
            if k % 2:
                w.role(mk.rnd.randrange(ch), 1)
        sig = w.sig
        b = rec.new(ch, rate, mode)
        for c, r in enumerate(w.map_now()):
            rec.role(b, c, r)
        a = w.i
        # a: n frames seeded, the following ones added; b: all of them added
        n = sum(ns := [mk.rnd.randint(0, 5 * hop(rate)) if rate < 200 else mk.rnd.randint(0, 300) for _ in range(mk.rnd.randint(1, 3))])
        pos = 0
        for x in ns:
            rec.seed(a, sig, pos, x, mk.fmt(), mk.pick([0, 1]))
            rec.add(b, sig, pos, x, mk.fmt(), mk.pick([0, 1]))
            pos += x
        m = 0
        for _ in range(6):
            x = mk.rnd.randint(1, 12 * hop(rate)) if rate < 200 else mk.rnd.randint(1, 200)
            lay, fmt = mk.pick([0, 1]), mk.fmt()
            rec.add(a, sig, pos, x, fmt, lay)
            rec.add(b, sig, pos, x, fmt, lay)
            pos += x
            m += x
            # windows within the frames both have added
            ws = tuple(w1 for w1 in (100, 200, 400, 1000, 3000) if rate * w1 // 1000 <= m and rate * w1 >= 1000 and w1 <= w.win)
            rec.obs(a, ws)
            rec.obs(b, ws)
            keys = ["w", "psp", "ptp"]
            if m >= 4 * hop(rate):
                keys.append("m")
            if m >= 30 * hop(rate):
                keys.append("s")
            rec.eq(a, b, keys)
        out.append(rec)
    ops = dict(add=6, small=5, seed=6, role=1, win=0.5, reset=0.3, rate=0.3, chan=0.3, signal=3, long=1)
    for k in range(60 * scale):      # no query sees a seed call
        mk = Maker(seed, f"unseen{k}")
        rec = Rec(f"unseen{k}")
        w = Walk(mk, rec, 0, wch(mk), mk.pick(TINY), mk.pick([FULL, FULL, FULL | HIST, rmode(mk)]))
        for _ in range(5):
            w.steps(mk.rnd.randint(1, 6), ops, 0)
            twin = rec.new(w.ch0, w.rate0, w.mode)
            replay(rec, twin, w.log)
            w.add(w.size(), seed=True)
            ws = tuple(mk.windows(w.rate, w.win)[:4])
            rec.obs(w.i, ws)
            rec.obs(twin, ws)
            rec.eq(w.i, twin, ALLKEYS)
            rec.destroy(twin)
        w.add(w.size())
        w.obs()
        out.append(rec)

    def between(mk, rec, i, ch, rate, sig, n):
        j = rec.new(ch, rate, rec.modes[i])
        k = rec.new(ch, rate, rec.modes[i])
        x = mk.rnd.randint(1, 60)
        rec.seed(j, sig, 0, n, mk.fmt(), mk.pick([0, 1]))
        rec.add(k, sig, 0, n, mk.fmt(), mk.pick([0, 1]))
        for s in ((n, x),) if mk.rnd.random() < 0.5 else ((n, 1), (n + 1, x)):
            rec.seed(j, sig, *s, mk.fmt(), mk.pick([0, 1]))
            rec.add(k, sig, *s, mk.fmt(), mk.pick([0, 1]))
        n = s[0] + s[1]
        more(mk, rec, [j, k], sig, n, ["psp", "ptp"])
        rec.destroy(j)
        rec.destroy(k)
    out += grid(seed, "seedgrid", between)
    for k in range(10 * scale):      # seed calls of many frames
        mk = Maker(seed, f"longseed{k}")
        rec = Rec(f"longseed{k}")
        rate = mk.pick([8000, 11025, 22050, 44100, 48000, 96000] if k % 3 else [44100, 48000, 96000, 192000])
        ch = mk.pick([1, 1, 2, 3, 6])
        a, b = rec.new(ch, rate, FULL), rec.new(ch, rate, FULL)
        total = mk.rnd.randint(12000, 140000 // ch) if k % 3 else 12000 + 4800 * ch + mk.rnd.randint(0, 9000)
        # an offset at the beginning, silence until the end: only the slow end of the response remains
        sig = mk.program(rec, rate, ch, kind=mk.pick(["noise", "sq"]), lo=-20)
        d = rec.sigs[sig - 1]
        d["h"], d["lev"] = mk.pick([total // 2, total // 4, 1000]), [32768, 0, 100, 20000] if k % 2 else mk.levels(-20, 0, 4)
        if k % 3 == 0:               # a click, and then nothing
            d.update(k="imp", p=10**6, h=1, lev=[32768])
        rec.seed(a, sig, 0, total, mk.fmt(), mk.pick([0, 1]))
        rec.add(b, sig, 0, total, mk.fmt(), mk.pick([0, 1]))
        for _ in range(3):
            x = mk.rnd.randint(hop(rate), 2 * hop(rate))
            rec.add(a, sig, total, x, F64, 0)
            rec.add(b, sig, total, x, F64, 0)
            total += x
            rec.obs(a, (100, 50))
            rec.obs(b, (100, 50))
            rec.eq(a, b, ["w", "psp", "ptp"])
        out.append(rec)
    return out


# ---------------------------------------------------------------- C16 refused calls, valid calls
def invalid(mk, rec, i, ch, rate, mode, api):
    c = mk.pick(["role", "map", "planar", "inter", "change", "dual"])
    seed = mk.rnd.random() < 0.4
    fmt = mk.pick([I16, I32, F32, F64])
    if c == "role":
        rec.role(i, mk.pick([ch, ch + 1, 64, 255, 256, U32]) if ch < 64 else mk.pick([64, 65, U32]), mk.pick([0, 1, 4, 6]))
    elif c == "dual" and ch > 1:
        rec.role(i, mk.rnd.randrange(ch), 6)
    elif c == "map" and not api:
        m = [mk.pick([0, 1, 4]) for _ in range(mk.pick([0, ch - 1, ch + 1, 2 * ch]))]
        if mk.rnd.random() < 0.3 and ch > 1:
            m = [1] * ch
            m[mk.rnd.randrange(ch)] = 6
        if len(m) != ch or ch > 1 and 6 in m:
            rec.map(i, m)
    elif c == "planar" and not api:
        n = mk.rnd.randint(1, 30)
        shapes = [[], [n] * (ch - 1), [n] * (ch + 1), [n] * (2 * ch), [n] * (ch - 1) + [n + 1], [n + 1] + [n] * (ch - 1), [0] * (ch - 1) + [n],
                  [0] * (ch + 1), [n] * (ch - 1) + [0]]
        s = mk.pick([s for s in shapes if len(s) != ch or len(set(s)) > 1])
        rec.raw(i, fmt, True, s, seed)
    elif c == "inter" and not api and ch > 1:
        rec.raw(i, fmt, False, [mk.rnd.randint(1, 40) * ch + mk.rnd.randint(1, ch - 1)], seed)
    else:
        bad = [(0, rate), (65, rate), (U32, rate), (ch, 0), (ch, 15), (ch, 2822401), (ch, U32), (0, 0), (65, 15), (65, 2822401), (256 + ch, rate), (ch, 1)]
        rec.change(i, *mk.pick(bad))


def p16(seed, scale):
    out = []
    for m in range(128):             # every mode
        mk = Maker(seed, f"mode{m}")
        rec = Rec(f"mode{m}")
        for api in (0, 1):
            i = rec.new(2, mk.pick(TINY), m, api)
            if m & M:
                sig = rec.sig("noise", a=[20000, 9000], s=m + 1)
                rec.add(i, sig, 0, 50)
                rec.win(i, mk.pick([100, 500, 5000]))
                rec.hist(i, mk.pick([100, 500, 5000]))
                rec.role(i, 1, 4)
                rec.change(i, 3, 40)
                rec.add(i, sig, 50, 400)
                rec.obs(i, (100, 400, 401, 500, 501, 3000, 3001, 3100, 3101, 5000, 5001, 5100, 5101, U32))
                if not api:
                    rec.reset(i)
                    rec.obs(i, (400,))
        out.append(rec)
    rates = [16, 17, 18, 19, 24, 25, 26, 35, 45, 99, 100, 101, 104, 105, 997, 8000, 22255, 22256, 44100, 48000, 95999, 96000, 191999, 192000,
             192001, 384000, 1000003, 2822399, 2822400]
    mk = Maker(seed, "cfgs")
    pairs = [(c, r) for c in range(1, 65) for r in (mk.pick(rates[:15]), mk.pick(rates[:22]))] + [(c, r) for r in rates for c in (1, 2, 5)] \
        + [(64, r) for r in (16, 48000, 96000, 192000)]
    for j in range(0, len(pairs), 8):
        rec = Rec(f"cfg{j}")
        for c, r in pairs[j:j + 8]:
            big = c * r > 3000000
            mode = M | SP if big else mk.pick([FULL, FULL | HIST, TP | S, I | LRA])
            api = mk.pick([0, 1])
            i = rec.new(c, r, mode, api)
            sig = rec.sig("zero" if big or r < 130 and r not in TINY else "noise", a=[5000], s=3)
            rec.add(i, sig, 0, min(5 * hop(r) + 1, 40000 // c + 2), mk.fmt(), 0)
            rec.obs(i, (400,) if r >= 3 else ())
            if not big:
                rec.win(i, 1000 if mode & S != S else 3300)
                rec.add(i, sig, 0, 10, mk.fmt(), 0)
                rec.change(i, c % 64 + 1, r)
                rec.add(i, sig, 0, 10, mk.fmt(), 0)
                rec.obs(i, (400,))
            rec.destroy(i)
        out.append(rec)
    rec = Rec("largest")             # gigabytes
    for c, r, m, api in ((64, 2822400, S, 0), (64, 2822400, M, 1), (24, 2822400, S, 1)):
        i = rec.new(c, r, m, api)
        rec.add(i, rec.sig("noise", a=[9000, 5000, 300], s=5), 0, 20)
        rec.destroy(i)
    out.append(rec)
    rec = Rec("refused")
    for api in (0, 1):
        for c in (0, 65, 66, 128, 256, 257, 2**16 + 1, 2**31, U32):
            for r in (48000, 0, 16, U32):
                rec.new(c, r, FULL, api)
        for r in (0, 1, 2, 14, 15, 2822401, 3000000, 2**31, U32):
            for c in (1, 2, 64):
                rec.new(c, r, FULL, api)
        for m in (0, 2, 4, 8, 16, 32, 64, 126):
            rec.new(2, 48000, m, api)
            rec.new(0, 48000, m, api)
            rec.new(2, 5, m, api)
    out.append(rec)
    for k in range(110 * scale):     # refused calls have no effect: against a twin that never made them
        mk = Maker(seed, f"invalid{k}")
        rec = Rec(f"invalid{k}")
        api = int(k % 4 == 3)
        w = Walk(mk, rec, api, wch(mk), mk.pick(TINY) if k % 14 else mk.pick(STD), mk.pick([FULL, FULL | HIST, rmode(mk)]))
        if w.rate > 200:
            w.left, w.rates = 300000, STD
        twin = rec.new(w.ch, w.rate, w.mode, api)
        for _ in range(12):
            mark = len(w.log)
            w.steps(mk.rnd.randint(1, 2), dict(ALLOPS, long=1), 0)
            replay(rec, twin, w.log[mark:])
            for _ in range(2):
                invalid(mk, rec, w.i, w.ch, w.rate, w.mode, api)
            ws = tuple(mk.windows(w.rate, w.win)[:4]) + (w.win + 200, U32)
            rec.obs(w.i, ws)
            rec.obs(twin, ws)
            rec.eq(w.i, twin, ALLKEYS)
        out.append(rec)
    for k in range(8 * scale):       # a window that fits in memory as it is, but not with other parameters
        mk = Maker(seed, f"nomem{k}")
        rec = Rec(f"nomem{k}")
        api = int(k % 3 == 2)
        rate = mk.pick([16, 18, 27])
        mode = mk.pick([M, M | I, FULL, M | SP, FULL | HIST])
        ch = mk.pick([1, 1, 2])
        i, twin = rec.new(ch, rate, mode, api), rec.new(ch, rate, mode, api)
        big = mk.rnd.randint(100, 104) * 10**6
        for x in (i, twin):
            rec.win(x, big)
        pos = 0
        sig = mk.program(rec, rate, ch, lo=-20)
        for _ in range(6):
            n = mk.rnd.randint(1, 9 * hop(rate))
            for x in (i, twin):
                rec.add(x, sig, pos, n)
            pos += n
            rec.change(i, *mk.pick([(64, 2822400), (64, 2822399), (64, 2822400)]))
            rec.obs(i, (400, 1000, 3000))
            rec.obs(twin, (400, 1000, 3000))
            rec.eq(i, twin, ALLKEYS)
        for x in (i, twin):
            rec.win(x, 400)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C17 the C API
def p17(seed, scale):
    out = []
    ops = dict(add=9, small=4, empty=1, rate=0.8, chan=0.8, both=0.5, same=1, win=2, hist=2, role=2, signal=3, long=1.5, invalid=1.5, huge=1.5)
    for k in range(120 * scale):
        mk = Maker(seed, f"capi{k}")
        rec = Rec(f"capi{k}")
        mode = mk.pick([FULL, FULL | HIST, rmode(mk), rmode(mk)])
        w = Walk(mk, rec, 1, wch(mk), mk.pick(TINY) if k % 10 else mk.pick([8000] + STD), mode)
        w.rates = TINY if w.rate < 200 else [8000] + STD
        w.left = None if w.rate < 200 else 500000
        rust = rec.new(w.ch, w.rate, mode, 0)
        mark = 0
        for _ in range(24 if w.rate < 200 else 6):
            op = mk.rnd.choices(list(ops), weights=list(ops.values()))[0]
            if op == "invalid":
                invalid(mk, rec, w.i, w.ch, w.rate, mode, 1)
            elif op == "huge":
                q = mk.rnd.random()
                big = mk.pick([2**32, 2**32 + 1, 2**32 + w.rate, 2**32 + 400, 2**32 + 3000, 2**33 + w.win, 2**48 + w.rate, 2**63, 2**64 - 1])
                if q < 0.4:
                    rec.change(w.i, mk.pick([w.ch, 2]), big)
                elif q < 0.7:
                    rec.win(w.i, big)
                else:
                    rec.hist(w.i, big)
            else:
                w.step({op: 1})
                if op == "hist" and mk.rnd.random() < 0.5:
                    rec.hist(w.i, mk.pick([0, 399, 400, 2999, 3000, 3001]))     # again, or below the minimum
                    w.log.append(("hist", (int(rec.cmds[-1][0].split()[2]),)))
                if op == "win" and mk.rnd.random() < 0.5:
                    w.set_win(mk.pick([w.win, 0, 399, 400, 2999, 3000]))
            replay(rec, rust, w.log[mark:])
            mark = len(w.log)
            if w.ch > 1 and mk.rnd.random() < 0.2:      # more samples than fit in an address
                rec.count(w.i, mk.pick([I16, I32, F32, F64]),
                          mk.pick([2**64 - 1, 2**64 // w.ch + 1, 2**63 + 1 if w.ch == 2 else 2**64 // w.ch + 7]))
            ws = tuple(mk.windows(w.rate, w.win)[:3])
            rec.obs(w.i, ws + (U32, 2**32 + 400, 2**32 + 3000, 2**64 - 1))
            rec.obs(rust, ws + (U32,) * 4)
            rec.eq(w.i, rust, [x for x in ALLKEYS if x not in ("map", "ms", "w")])
            rec.multi([w.i], False, 1)
            rec.multi([w.i], True, 1)
        rec.destroy(w.i)
        out.append(rec)
    for k in range(20 * scale):      # several instances
        mk = Maker(seed, f"cmulti{k}")
        modes = [lambda: mk.pick([I | LRA, FULL, I | LRA | SP]), lambda: mk.pick([I, I | LRA, LRA, FULL, I | HIST, FULL | HIST]),
                 lambda: mk.pick([LRA | HIST, FULL | HIST, I | LRA | HIST]), lambda: mk.pick([LRA, FULL])]
        out.append(group(mk, Rec(f"cmulti{k}"), modes[k % 4], mk.pick([2, 3, 4, 17]), 1))
    out.append(crowd(seed, "ccrowd", 1, [I | LRA]))
    rec = Rec("cinit")
    for ch in (0, 1, 64, 65, 2**31, U32):
        for r in (0, 15, 16, 48000, 2822400, 2822401, 2**32, 2**32 + 16, 2**32 + 48000, 2**40 + 44100, 2**63 + 48000, 2**64 - 1):
            if ch * r > 10**8 and r < 2**30:
                continue
            i = rec.new(ch, r, M, 1)
            if 1 <= ch <= 64 and 16 <= r <= 2822400:
                rec.obs(i, (400,))
                rec.change(i, ch, 2**32 + r)
                rec.obs(i, (400,))
                rec.destroy(i)
    out.append(rec)
    rec = Rec("lives")               # what is destroyed leaves nothing behind
    rec.version()
    mk = Maker(seed, "lives")
    for ch in (1, 2, 5, 8, 16, 63):
        for api in (0, 1):
            for mode in (M, I, FULL, FULL | HIST, rmode(mk)):
                rec.lives(api, ch, mk.pick([16, 34, 128, 8000, 48000 if ch < 6 else 1000, 96000 if ch < 3 else 50, 192000 if ch < 3 else 77]), mode)
    out.append(rec)
    return out


# ---------------------------------------------------------------- C18 queries, independence
def p18(seed, scale):
    out = []
    for k in range(60 * scale):      # queries at any point, twice
        mk = Maker(seed, f"query{k}")
        rec = Rec(f"query{k}")
        api = int(k % 4 == 3)
        w = Walk(mk, rec, api, wch(mk), mk.pick(TINY) if k % 10 < 8 else mk.pick(STD), mk.pick([FULL, FULL, FULL | HIST, rmode(mk)]))
        if w.rate > 200:
            w.left, w.rates = 100000, STD
        odd = None
        if k % 2:                    # another instance, with values that must stay its own
            odd = Walk(mk, rec, int(mk.rnd.random() < 0.3), mk.pick([1, 2]), mk.pick(TINY), w.mode)
        for rnd in range(3):
            w.steps(mk.rnd.randint(3, 15), dict(ALLOPS, long=1), 0.8)
            ws = tuple(mk.windows(w.rate, w.win)[:5])
            for _ in range(3):
                rec.multi([w.i] * mk.pick([1, 2]), mk.pick([True, False]), api)
            twin = rec.new(w.ch0, w.rate0, w.mode, api)
            replay(rec, twin, [e for e in w.log if e[0] != "obs"])
            if odd:
                odd.steps(mk.rnd.randint(0, 4), dict(add=5, small=3, seed=1, reset=0.3, long=1), 0)
                contaminate(mk, rec, odd)
                odd.add(mk.rnd.randint(1, 40) * hop(odd.rate))
            rec.obs(w.i, ws)
            if odd:
                odd.obs()
                rec.multi([odd.i] * mk.pick([1, 2]), mk.pick([True, False]), odd.api)
            rec.obs(twin, ws)
            rec.eq(w.i, twin, ALLKEYS)
            rec.obs(twin, ws[::-1])
            rec.obs(twin, ws)
            rec.eq(w.i, twin, ALLKEYS)
            rec.destroy(twin)
        out.append(rec)
    for k in range(40 * scale):      # several threads ask the same instance
        mk = Maker(seed, f"together{k}")
        rec = Rec(f"together{k}")
        w = Walk(mk, rec, 0, wch(mk), mk.pick(TINY), mk.pick([FULL, FULL, FULL | HIST, rmode(mk)]))
        for _ in range(8):
            w.steps(mk.rnd.randint(1, 5), dict(ALLOPS, long=2), 0)
            ws = tuple(mk.windows(w.rate, w.win)[:3])
            rec.together(w.i, mk.rnd.randint(2, 6), ws)
            twin = rec.new(w.ch0, w.rate0, w.mode)
            replay(rec, twin, [e for e in w.log if e[0] != "obs"])
            rec.obs(twin, ws)
            rec.eq(w.i, twin, ALLKEYS)
            rec.destroy(twin)
        out.append(rec)
    for k in range(70 * scale):      # several instances, interleaved or on threads, against instances alone
        mk = Maker(seed, f"indep{k}")
        rec = Rec(f"indep{k}")
        threads = k % 2 == 1
        n = mk.rnd.randint(2, 6)
        ws = [Walk(mk, rec, int(mk.rnd.random() < 0.25), mk.pick([1, 2, 3, 5]) if k % 10 < 7 else wch(mk), mk.pick(TINY) if k % 10 < 8 else mk.pick(STD),
                   mk.pick([FULL, FULL | HIST, rmode(mk)])) for _ in range(n)]
        for w in ws:
            if w.rate > 200:
                w.left, w.rates = 60000, STD
        for rnd in range(2):
            for w in ws:
                w.new_signal()
            if threads:
                rec.par()
            for _ in range(25):
                w = mk.pick(ws)
                op = dict(add=8, small=5, seed=1, reset=0.4, rate=0.5, chan=0.5, win=1, hist=0.6, role=1, long=1)
                if mk.rnd.random() < 0.06:
                    contaminate(mk, rec, w)
                else:
                    w.step(op)
                if mk.rnd.random() < 0.5:
                    w.obs(2)
            if threads:
                rec.join()
            for w in ws:
                q = tuple(mk.windows(w.rate, w.win)[:3])
                alone = rec.new(w.ch0, w.rate0, w.mode, w.api)
                replay(rec, alone, [e for e in w.log if e[0] != "obs"])
                rec.obs(w.i, q)
                rec.obs(alone, q)
                rec.eq(w.i, alone, ALLKEYS)
                rec.destroy(alone)
        out.append(rec)
    for k in range(8 * scale):       # threads that mostly ask
        mk = Maker(seed, f"rush{k}")
        rec = Rec(f"rush{k}")
        modes = mk.pick([[FULL | HIST], [FULL], [FULL, FULL | HIST]])
        ws = [Walk(mk, rec, int(mk.rnd.random() < 0.2), 1, mk.pick([16, 18, 27]), mk.pick(modes), program=dict(lo=-45)) for _ in range(8)]
        for w in ws:
            w.add(mk.rnd.randint(100, 2000))
            w.new_signal()
            w.add(mk.rnd.randint(100, 2000))
        rec.par()
        for _ in range(6):
            for w in ws:
                w.obs(2)
            w = mk.pick(ws)
            w.add(mk.rnd.randint(1, 50))
        rec.join()
        for w in ws:
            alone = rec.new(w.ch0, w.rate0, w.mode, w.api)
            replay(rec, alone, [e for e in w.log if e[0] != "obs"])
            rec.obs(w.i, (400,))
            rec.obs(alone, (400,))
            rec.eq(w.i, alone, ALLKEYS)
        out.append(rec)
    for k in range(6 * scale):       # threads with more work each
        mk = Maker(seed, f"threads{k}")
        rec = Rec(f"threads{k}")
        same = mk.pick([True, False])
        ws = [Walk(mk, rec, 0, 2, 48000 if same else mk.pick([44100, 48000, 96000]), FULL) for _ in range(4)]
        rec.par()
        for j in range(6):
            for w in ws:
                w.add(mk.rnd.randint(2000, 20000))
                w.obs(1)
        rec.join()
        for w in ws:
            alone = rec.new(w.ch0, w.rate0, w.mode)
            replay(rec, alone, [e for e in w.log if e[0] != "obs"])
            rec.obs(w.i, (400,))
            rec.obs(alone, (400,))
            rec.eq(w.i, alone, ALLKEYS)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C19 floating-point environment
def p19(seed, scale):
    out = []
    ops = dict(ALLOPS, long=1, invalid=3, obs=3, env=4, denormal=3, multi=1, make=1)
    for k in range(130 * scale):
        mk = Maker(seed, f"env{k}")
        rec = Rec(f"env{k}")
        api = int(k % 3 == 2)
        rec.fpenv(mk.pick(ENVS))
        w = Walk(mk, rec, api, mk.pick([1, 2, 3, 4, 6]), mk.pick(TINY) if k % 6 else mk.pick([8000] + STD), mk.pick([FULL, FULL | HIST, rmode(mk)]))
        w.rates = TINY if w.rate < 200 else [8000] + STD
        w.left = None if w.rate < 200 else 300000
        peer = rec.new(1, 16, w.mode if k % 3 else mk.pick([I | LRA, FULL | HIST, M]), api)
        rec.add(peer, rec.sig("noise", a=[9000]), 0, 100, F64, 0)
        for _ in range(45 if w.rate < 200 else 12):
            op = mk.rnd.choices(list(ops), weights=list(ops.values()))[0]
            if op == "env":
                rec.fpenv(mk.pick(ENVS))
            elif op == "invalid":
                invalid(mk, rec, w.i, w.ch, w.rate, w.mode, api)
            elif op == "obs":
                w.obs()
            elif op == "multi":
                rec.multi(mk.pick([[], [w.i], [w.i] * 2, [w.i, peer], [peer, w.i, w.i, peer]]), mk.pick([True, False]), api)
            elif op == "make":
                i = rec.new(mk.pick([0, 1, 2, 64, 65]), mk.pick([8, 16, 48000]), mk.pick([0, M, S]), api)
            elif op == "denormal":
                e = mk.pick([-1030, -1010, -150, -300])
                s = mk.program(rec, w.rate, w.ch, e=e, lo=-20)
                w.add(mk.rnd.randint(1, 2 * hop(w.rate)), sig=s, frm=0)
            else:
                w.step({op: 1})
        rec.fpenv(DEFAULT_ENV)
        # results are those of the default environment: a twin fed the same there (the specification
        # compares neither; this only shows that nothing is left behind)
        w.add(w.size())
        w.obs()
        out.append(rec)
    for k, env in enumerate(ENVS * 2):      # every kind of call with every control word
        mk = Maker(seed, f"envgrid{k}")
        rec = Rec(f"envgrid{k}")
        api = k // len(ENVS)
        for mode, ch, rate in ((M, 1, 192000), (I | LRA, mk.pick([2, 3]), 16), (FULL, 2, 44100), (FULL, mk.pick([5, 9, 33]), 20),
                               (FULL | HIST, mk.pick([1, 4, 6]), 96000 if k % 2 else 30)):
            i = rec.new(ch, rate, mode, api)
            s = rec.sig("noise", a=[9000, 20000], s=k + 1)
            kinds = mk.rnd.sample(["nan", "inf", "min", "den", "big"], 2)
            q = rec.sig("noise", a=[9000], s=k + 7, sp=[[mk.rnd.randint(1, ch), j + 1, x] for j, x in enumerate(kinds)])
            n = 5 * hop(rate) if rate < 1000 else hop(rate) // 3
            calls = [lambda n=n: rec.add(i, s, 0, n, mk.pick([I16, I32, F32, F64]), 0 if api else mk.pick([0, 1])), lambda n=n: rec.add(i, s, n, 1, I16),
                     lambda: rec.add(i, s, 0, 0, mk.pick([I16, F64]), 0 if api else mk.pick([0, 1])), lambda: rec.obs(i, (0, 1, 100, 400, 3001, U32)),
                     lambda: rec.win(i, mk.pick([400, 3000, 4000])), lambda: rec.hist(i, mk.pick([400, 3000, 5000])), lambda: rec.role(i, 0, mk.pick([0, 1])),
                     lambda: rec.role(i, ch, 1), lambda: rec.change(i, ch, rate), lambda: rec.change(i, ch, 0), lambda: rec.multi([i], True, api),
                     lambda: rec.multi([i, i], False, api), lambda n=n: rec.add(i, q, 0, n, F64), lambda: rec.multi([], True, api)]
            if not api:
                calls += [lambda n=n: rec.add(i, s, 0, n, mk.pick([I16, I32, F32, F64]), mk.pick([0, 1]), True), lambda: rec.add(i, s, 0, 0, F32, 0, True),
                          lambda: rec.add(i, s, 0, 0, I32, 1, True), lambda: rec.raw(i, F64, True, [], mk.pick([True, False])),
                          lambda: rec.raw(i, I16, True, [3] * (ch + 1), True), lambda: rec.raw(i, F32, True, [3] * (ch + 1)), lambda: rec.reset(i),
                          lambda: rec.map(i, [0] * ch), lambda: rec.map(i, [1] * (ch + 1)), lambda: rec.add(i, s, 0, 1, F64, 1, True)]
            else:
                calls += [lambda: rec.count(i, F32, 2**63 + 1)] * (ch > 1)
            mk.rnd.shuffle(calls)
            for j, c in enumerate(calls + mk.rnd.sample(calls, 5)):
                rec.fpenv(mk.pick(ENVS) if j % 4 == 3 else env)
                c()
        rec.fpenv(DEFAULT_ENV)
        rec.obs(i, (400,))
        out.append(rec)
    for k in range(8 * scale):       # threads in different environments
        mk = Maker(seed, f"envthreads{k}")
        rec = Rec(f"envthreads{k}")
        envs = mk.rnd.sample(ENVS, min(len(ENVS), 5))
        rate = mk.pick([8000, 44100, 48000]) if k % 2 else mk.pick(TINY)
        ws = [Walk(mk, rec, int(mk.rnd.random() < 0.3), mk.pick([1, 2]), rate, FULL) for _ in envs]
        rec.par()
        for j in range(8 if k % 2 else 40):
            for w, e in zip(ws, envs):
                rec.fpenv(e)
                w.add(mk.rnd.randint(2000, 6000) if k % 2 else mk.rnd.randint(1, 30), seed=mk.rnd.random() < 0.1)
                if mk.rnd.random() < 0.2:
                    w.obs(1)
        rec.join()
        rec.fpenv(DEFAULT_ENV)
        for w in ws:
            w.obs(1)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C20 special values
def p20(seed, scale):
    out = []
    ops = dict(add=5, small=5, bad=4, role=1.5, reset=0.5, rate=0.5, chan=0.4, win=0.6, hist=0.4, seed=0.8, signal=2, long=1)
    for k in range(150 * scale):
        mk = Maker(seed, f"special{k}")
        rec = Rec(f"special{k}")
        mode = mk.pick([FULL, FULL, FULL | HIST, I | LRA | SP, rmode(mk)])
        fmts = mk.pick([[F64], [F64], [F32, F64]])
        w = Walk(mk, rec, int(k % 4 == 3), mk.pick([1, 1, 2, 3, 5]) if k % 8 else mk.rnd.randint(1, 64), mk.pick(TINY) if k % 12 else mk.pick(STD), mode, fmts=fmts)
        if w.rate > 200:
            w.left, w.rates = 700000, STD
        kinds = ["nan", "inf", "ninf", "min", "nz"] + (["big32", "den32"] if F32 in fmts else ["big", "den", "big32", "den32"])
        for _ in range(26 if w.rate < 200 else 12):
            op = mk.rnd.choices(list(ops), weights=list(ops.values()))[0]
            if op == "bad":
                if w.left is not None and w.left < 5 * hop(w.rate) * w.ch:
                    continue
                n = mk.rnd.randint(1, 5 * hop(w.rate))
                q = [[mk.rnd.randint(1, w.ch), mk.rnd.randrange(n), mk.pick(kinds)] for _ in range(mk.pick([1, 1, 2, 4]))]
                q = [list(x) for x in {(a, b): (a, b, c) for a, b, c in q}.values()]
                s = rec.sig("noise", a=[mk.rnd.randint(1000, 20000)], s=mk.rnd.randint(1, 999), sp=q, f32=int(F32 in fmts))
                w.add(n, seed=mk.rnd.random() < 0.2, sig=s, frm=0)
            else:
                w.step({op: 1})
            w.obs(2)
        out.append(rec)
    for k in range(20 * scale):      # the most negative integers, full-scale square waves
        mk = Maker(seed, f"extreme{k}")
        rec = Rec(f"extreme{k}")
        fmt = mk.pick([I16, I32])
        w = Walk(mk, rec, int(k % 3 == 2), mk.pick([1, 2, 6]), mk.pick(TINY), FULL, fmts=[fmt], program=dict(fmt16=fmt == I16))
        for _ in range(15):
            n = mk.rnd.randint(1, 5 * hop(w.rate))
            s = rec.sig("sq", a=[32767], p=mk.rnd.randint(1, 9), low=int(fmt == I32),
                        sp=[[mk.rnd.randint(1, w.ch), f, mk.pick(["min", "min", "max"])] for f in mk.rnd.sample(range(n), min(n, mk.rnd.randint(1, 20)))])
            w.add(n, sig=s, frm=0)
            w.obs(2)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C21 K-weighting at every rate
def roles(mk, rec, insts, ch):
    """the same roles for all of them"""
    for c in range(ch):
        if mk.rnd.random() < (0.15 if ch < 7 else 0.4):
            r = mk.pick(ROLES)
            for i in insts:
                rec.role(i, c, r)


def p21(seed, scale):
    out = []
    mk0 = Maker(seed, "rates")
    rates = sorted(set(LOWR + MID + EDGE + HIGH[:3] + [24000, 37800, 64000] + [mk0.rnd.randint(1000, 200000) for _ in range(25 * scale)]
                       + [mk0.rnd.randint(200000, 2822400) for _ in range(4 * scale)]))
    for r in rates:
        if not stable(r):
            continue
        mk = Maker(seed, f"k{r}")
        rec = Rec(f"k{r}")
        mode = S if r < 60000 else M
        ch = mk.pick([1, 2, 3])
        n = (31 if r < 60000 and (r in MID or r < 12000) else 5) * hop(r)
        if r >= 8000:
            sine = rec.sig("sine", a=[32767] + [0] * (ch - 1), fr=997000, rate=r)
            i = rec.new(ch, r, mode)
            rec.add(i, sine, 0, n)
            rec.obs(i, (300,))
            if n > 10 * hop(r):
                rec.level(i, -3.01, 0.06, ("m", "s") if mode == S else ("m",))
            else:
                rec.level(i, -3.01, 0.06, ("m",))
        for lot in range(2):
            api = int(lot == 1 and mk.rnd.random() < 0.5)
            c2 = mk.pick([1, 2, 3]) if lot == 0 else mk.pick([1, 2, 2, 4, 5, 6, 8]) if r < 100000 else 2
            a, b = rec.new(c2, r, mode, api), rec.new(c2, r, mode, api)
            roles(mk, rec, [a, b], c2)
            e = mk.pick([-3, -2, -1, 1, 2, 4, 6]) if lot == 0 else mk.pick([-3, -2, -1])
            f = F64 if lot == 0 else mk.pick([F32, F64])
            s = mk.program(rec, r, c2, lo=-30, kind=mk.pick(["noise", "sine", "sq", "imp"]))
            d = dict(rec.sigs[s - 1])
            rec.sigs.append(dict(d, e=e))
            s2 = len(rec.sigs)
            x = mk.rnd.randint(hop(r), 6 * hop(r)) if c2 <= 3 else mk.rnd.randint(hop(r), 2 * hop(r))
            planar = mk.pick([0, 1])
            rec.add(a, s, 0, x, f, 0 if api else planar)
            rec.add(b, s2, 0, x, f, 0 if api else 1 - planar)
            rec.obs(a, (100, 400))
            rec.obs(b, (100, 400))
            rec.diff(a, b, e)
        out.append(rec)
    # every band of 2 kHz, and of a sixteenth of an octave above, and rates in use somewhere
    known = [5512, 6000, 7350, 9600, 18900, 28000, 37286, 47250, 47952, 48048, 50000, 50400, 60000, 72000, 100000, 120000, 128000, 144000,
             150000, 256000, 288000, 705600, 768000, 1411200, 1536000, 2822399]
    bands = [mk0.rnd.randint(k, k + 1999) for k in range(2000, 200000, 2000)]
    top = 200000.0
    while top < 2822000:
        bands.append(mk0.rnd.randint(int(top), int(top * 2 ** (1 / 16))))
        top *= 2 ** (1 / 16)
    bands = [r for r in known + bands if stable(r) and r not in rates and r <= 2822400]
    for lot in range(0, len(bands), 8):
        mk = Maker(seed, f"band{bands[lot]}")
        rec = Rec(f"band{bands[lot]}")
        for r in bands[lot:lot + 8]:
            c2 = mk.pick([1, 1, 2, 3]) if r < 200000 else 1
            i = rec.new(c2, r, M, 0)
            if r >= 8000 and mk.rnd.random() < 0.5:
                s = rec.sig("sine", a=[32767] + [0] * (c2 - 1), fr=997000, rate=r)
                rec.add(i, s, 0, 5 * hop(r))
                rec.obs(i, (100,))
                rec.level(i, -3.01, 0.06, ("m",))
            else:
                s = mk.program(rec, r, c2, lo=-30, kind=mk.pick(["noise", "noise", "sq", "imp"]))
                rec.add(i, s, 0, mk.rnd.randint(hop(r), (4 if r < 200000 else 2) * hop(r)), mk.pick([F64, F64, F32]), mk.pick([0, 1]))
                rec.obs(i, (100, 400))
        out.append(rec)
    for k, r in enumerate(TINY):
        mk = Maker(seed, f"tiny{r}")
        rec = Rec(f"tiny{r}")
        api, c2 = int(k % 3 == 2), mk.pick([1, 2, 2, 3, 5, 6, 8, 20]) if k % 2 else 2
        i, j = rec.new(c2, r, S, api), rec.new(c2, r, S, api)
        roles(mk, rec, [i, j], c2)
        e = mk.pick([-4, -1, 1, 3, 9])
        for _ in range(3):
            s = mk.program(rec, r, c2, lo=-30)
            rec.sigs.append(dict(rec.sigs[s - 1], e=e))
            x = mk.rnd.randint(hop(r), 20 * hop(r))
            f = mk.pick([F64, F64, F32])
            rec.add(i, s, 0, x, f, 0 if api else mk.pick([0, 1]))
            rec.add(j, s + 1, 0, x, f, 0 if api else mk.pick([0, 1]))
            rec.obs(i, (200, 400))
            rec.obs(j, (200, 400))
            rec.diff(i, j, e)
        out.append(rec)
    return out


# ---------------------------------------------------------------- C22 chunks in parallel
def chunked(mk, rec, rate, ch, mode, sig, total, cuts, api=0):
    """One pass, and the documented workflow: cuts are in hops, from where a chunk counts on."""
    s = hop(rate)
    roles = {c: mk.pick([0, 1, 2, 4, 5, 9]) for c in range(ch) if mk.rnd.random() < 0.15} if ch > 1 else {}
    def make():
        i = rec.new(ch, rate, mode, 0)
        for c, r in roles.items():
            rec.role(i, c, r)
        return i
    fmts = formats(rec.sigs[sig - 1])
    def feed(i, a, b, whole=False):
        while a < b:
            n = b - a if mk.rnd.random() < 0.3 else min(b - a, mk.rnd.randint(1, 9 * s))
            rec.add(i, sig, a, n, mk.pick(fmts), mk.pick([0, 1]))
            a += n
    w = make()
    feed(w, 0, total)
    cuts = sorted(cuts)
    starts, ends = [0] + cuts, [c * s for c in cuts] + [total]
    work = []
    for k, (a, b) in enumerate(zip(starts, ends)):
        i = make()
        work.append((i, 0 if k == 0 else (a - 4) * s, b, k > 0))
    order = list(work)
    mk.rnd.shuffle(order)
    threads = mk.rnd.random() < 0.5
    if threads:
        rec.par()
    for i, a, b, seeded in order:
        if seeded:
            x = mk.rnd.randint(1, s - 1) if mk.rnd.random() < 0.2 else s
            rec.seed(i, sig, a, x, mk.pick(fmts), mk.pick([0, 1]))
            if x < s:
                rec.seed(i, sig, a + x, s - x, mk.pick(fmts), mk.pick([0, 1]))
            a += s
        feed(i, a, b)
    if threads:
        rec.join()
    ids = [i for i, _, _, _ in work]
    for i in ids:
        rec.obs(i)
    rec.obs(w, (400, 100))
    rec.obs(ids[-1], (400, 100))
    rec.chunks(ids, w)
    for _ in range(2):
        rec.multi(ids, False, 0, w)
        mk.rnd.shuffle(ids)
    if mode & LRA == LRA:
        rec.multi(ids, True)
    return rec


def p22(seed, scale):
    out = []
    for k in range(70 * scale):
        mk = Maker(seed, f"chunks{k}")
        rec = Rec(f"chunks{k}")
        rate = mk.pick([4000, 4000, 4005, 8000, 8000, 11025, 12000, 16000]) if k % 12 else mk.pick([22050, 44100, 48000, 96000, 88200, 192000, mk.rnd.randint(48000, 200000)])
        ch = mk.pick([1, 1, 2, 2, 3, 5, 6]) if rate < 20000 else mk.pick([1, 2])
        if k % 12 == 7:
            rate, ch = 4000, mk.rnd.randint(7, 64)
        mode = mk.pick([I, I, I | HIST, I | TP, I | SP | HIST, FULL, FULL | HIST, I | LRA])
        hops = mk.rnd.randint(9, 60 if rate < 12000 else 25)
        sig = mk.program(rec, rate, ch, lo=mk.pick([-90, -70, -40, -20]))
        rec.sigs[sig - 1]["h"] = hop(rate) * mk.pick([1, 2, 3, 5]) + mk.pick([0, 0, 0, 7])
        if mk.rnd.random() < 0.5:
            rec.sigs[sig - 1]["sp"] = [[mk.rnd.randint(1, ch), mk.rnd.randrange(hops * hop(rate)), mk.pick(["min", "max"])] for _ in range(2)]
        n = mk.pick([1, 1, 2, 3, 5, hops])
        if rate > 80000:
            hops = min(hops, 14)
        cuts = mk.rnd.sample(range(5, hops), min(n, hops - 5))
        out.append(chunked(mk, rec, rate, ch, mode, sig, hops * hop(rate) + mk.pick([0, 0, 1, mk.rnd.randint(1, hop(rate) - 1)]), cuts))
    for k in range(24 * scale):      # the largest peaks where a chunk goes from seeding to adding
        mk = Maker(seed, f"chunkpeak{k}")
        rec = Rec(f"chunkpeak{k}")
        rate = mk.pick([96000, 96000, 176400, 191999, mk.rnd.randint(96000, 191999)]) if k % 2 else mk.pick([4000, 8000, 44100, 48000])
        ch, mode = mk.pick([1, 1, 2, 3] if k % 2 else [1, 2, 3, 4, 6]), mk.pick([I | TP, FULL, I | HIST | TP])
        sig = mk.program(rec, rate, ch, kind="noise", lo=-60, hi=-25)
        hops = mk.rnd.randint(9, 12)
        cuts = mk.rnd.sample(range(5, hops), 2)
        sp = rec.sigs[sig - 1]["sp"] = []
        for cut in cuts:             # alternating extremes, out of step here and there
            s = (cut - 3) * hop(rate)
            for c in range(1, ch + 1):
                q = mk.rnd.random() < 0.5
                for x in range(s - 26, s + mk.rnd.randint(2, 14)):
                    if mk.rnd.random() < 0.85:
                        sp.append([c, x, "min" if q else "max"])
                    q = q if mk.rnd.random() < 0.1 else not q
        out.append(chunked(mk, rec, rate, ch, mode, sig, hops * hop(rate), cuts))
    return out


# ---------------------------------------------------------------- C23 channels are processed alone
LOUDKEYS = ["m", "s", "w", "g", "t", "c", "r"]


def twisted(rec, sig, ch, perm):
    """The signal with its channels exchanged: channel perm[c] has what channel c had."""
    d = dict(rec.sigs[sig - 1])
    cp = [0] * ch
    for c in range(ch):
        cp[perm[c]] = c + 1
    d["cp"] = cp
    rec.sigs.append(d)
    return len(rec.sigs)


def other(mk, rec, sig, ch, keep, calm):
    """The signal with other audio in all channels but those of keep."""
    d = dict(rec.sigs[sig - 1])
    free = [c for c in range(ch) if c not in keep]
    cp = list(range(1, ch + 1))
    for c in free:
        cp[c] = mk.rnd.randint(ch + 1, 3 * ch + 9)      # noise of channels that do not exist, or the same signal elsewhere
    d["cp"] = cp
    d["sp"] = list(d["sp"])
    if not calm:
        for c in free:
            if mk.rnd.random() < 0.5:
                d["sp"].append([cp[c], mk.rnd.randint(0, 40), mk.pick(["nan", "inf", "ninf", "big32", "min"])])
    rec.sigs.append(d)
    return len(rec.sigs)


def p23(seed, scale):
    out = []
    for k in range(90 * scale):      # channels exchanged, with their roles
        mk = Maker(seed, f"swap{k}")
        rec = Rec(f"swap{k}")
        rate = mk.pick(TINY) if k % 9 else mk.pick([8000, 44100, 48000, 96000, 192000])
        ch = mk.pick([2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]) if rate < 200 else mk.pick([2, 3, 6])
        mode = mk.pick([FULL, FULL, FULL | HIST, rmode(mk)])
        perm = list(range(ch))
        mk.rnd.shuffle(perm)
        if perm == list(range(ch)):
            perm = perm[::-1]
        a, b = rec.new(ch, rate, mode), rec.new(ch, rate, mode)
        roles = [mk.pick([0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 16]) if mk.rnd.random() < 0.6 else x for x in default_map(ch)]

        def setup():
            for c in range(ch):
                rec.role(a, c, roles[c])
                rec.role(b, perm[c], roles[c])
        setup()
        pos = 0
        sig = mk.program(rec, rate, ch, lo=-40)
        tw = twisted(rec, sig, ch, perm)
        for _ in range(12 if rate < 200 else 4):
            op = mk.rnd.choices(["add", "add", "long", "seed", "role", "signal", "reset", "rate"], weights=[8, 6, 3, 2, 2, 2, 0.4, 0.5])[0]
            if op in ("add", "long", "seed"):
                n = mk.rnd.randint(1, hop(rate) * (30 if op == "long" else 5)) if rate < 200 else mk.rnd.randint(1, 2 * hop(rate))
                fs = formats(rec.sigs[sig - 1])
                rec.add(a, sig, pos, n, mk.pick(fs), mk.pick([0, 1]), op == "seed")
                rec.add(b, tw, pos, n, mk.pick(fs), mk.pick([0, 1]), op == "seed")
                pos += n
            elif op == "role":
                c = mk.rnd.randrange(ch)
                roles[c] = mk.pick([0, 1, 2, 3, 4, 5, 9, 16])
                rec.role(a, c, roles[c])
                rec.role(b, perm[c], roles[c])
            elif op == "signal":
                sig = mk.program(rec, rate, ch, lo=-40)
                if mk.rnd.random() < 0.3:
                    rec.sigs[sig - 1]["sp"] = [[mk.rnd.randint(1, ch), mk.rnd.randint(0, 40), "min"]]
                tw, pos = twisted(rec, sig, ch, perm), 0
            elif op == "reset":
                rec.reset(a)
                rec.reset(b)
            elif rate < 200:
                rate = mk.pick(TINY)
                rec.change(a, ch, rate)
                rec.change(b, ch, rate)
            ws = tuple(mk.windows(rate, 3000 if mode & S == S else 400)[:3])
            rec.obs(a, ws)
            rec.obs(b, ws)
            rec.channels(a, b, [[c, perm[c]] for c in range(ch)], LOUDKEYS)
        out.append(rec)
    for k in range(70 * scale):      # other audio in the other channels
        mk = Maker(seed, f"alone{k}")
        rec = Rec(f"alone{k}")
        rate = mk.pick(TINY) if k % 9 else mk.pick([8000, 44100, 48000, 96000, 192000])
        ch = mk.pick([2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 64]) if rate < 200 else mk.pick([2, 3, 6])
        mode = mk.pick([FULL, FULL, FULL | HIST, rmode(mk, SP)])
        keep = mk.rnd.sample(range(ch), mk.rnd.randint(1, ch - 1))
        unused = mk.rnd.random() < 0.5       # the other channels do not count: loudness must be the same as well
        a, b = rec.new(ch, rate, mode), rec.new(ch, rate, mode)
        if unused:
            for c in range(ch):
                if c not in keep:
                    rec.role(a, c, 0)
                    rec.role(b, c, 0)
        fmts = mk.pick([[I16, I32, F32, F64], [F64]])
        calm = unused and mk.rnd.random() < 0.5 or F64 not in fmts or len(fmts) > 1
        pos = 0
        for _ in range(10 if rate < 200 else 3):
            if pos == 0 or mk.rnd.random() < 0.2:
                sig = mk.program(rec, rate, ch, lo=-40, kind="noise")
                ot, pos = other(mk, rec, sig, ch, keep, calm), 0
            op = mk.rnd.choices(["add", "long", "seed", "reset"], weights=[9, 3, 2, 0.4])[0]
            if op == "reset":
                rec.reset(a)
                rec.reset(b)
            else:
                n = mk.rnd.randint(1, hop(rate) * (30 if op == "long" else 5)) if rate < 200 else mk.rnd.randint(1, 2 * hop(rate))
                lay = mk.pick([0, 1])
                fmt = mk.pick(fmts)
                rec.add(a, sig, pos, n, fmt, lay, op == "seed")
                rec.add(b, ot, pos, n, fmt, lay, op == "seed")
                pos += n
            ws = tuple(mk.windows(rate, 3000 if mode & S == S else 400)[:3])
            rec.obs(a, ws)
            rec.obs(b, ws)
            rec.channels(a, b, [[c, c] for c in sorted(keep)], LOUDKEYS if unused else ())
        out.append(rec)
    return out


PRECISE = {"C09"}    # some executions with the feature precision-true-peak
PROFILES = {f"C{k:02d}": globals()[f"p{k:02d}"] for k in range(1, 24)}

LOUD = {"m", "s", "w"}
BLOCKS = {"g", "t", "c", "r"}
PEAKS = {"sp", "psp", "tp", "ptp"}
ALL = LOUD | BLOCKS | PEAKS | {"cfg", "map", "win", "hist"}

# aspects of a disagreement that break the property; "eq" any comparison of two instances,
# "ret" any unexpected return code, "code" an unexpected code of a query
ASPECTS = {
    "C01": {"eq", "ret"},
    "C02": {"eq", "ret"},
    "C03": LOUD | {"ret"},
    "C04": LOUD | BLOCKS | {"map", "eq", "ret"},
    "C05": {"g", "t", "c", "ret"},
    "C06": {"r", "ret"},
    "C07": BLOCKS | {"multi", "ret"},
    "C08": {"sp", "psp", "ret"},
    "C09": {"tp", "ptp", "ret"},
    "C10": {"eq", "ret"},
    "C11": {"eq", "ret", "g", "t", "c", "r", "sp", "tp", "map", "cfg", "win", "hist"},
    "C12": LOUD | BLOCKS | PEAKS | {"win", "map", "eq", "ret"},
    "C13": BLOCKS | {"hist", "mem", "ret"},
    "C14": {"multi", "ret"},
    "C15": ALL | {"eq", "ret"},
    "C16": {"code", "ret", "eq", "cfg"},
    "C17": {"code", "ret", "eq", "cfg", "multi", "left", "version"},
    "C18": {"eq", "ret"},
    "C19": {"fe", "ret"},
    "C20": LOUD | BLOCKS | PEAKS | {"ret"},
    "C21": LOUD | {"level", "diff", "ret"},
    "C22": {"chunks", "multi", "ret"},
    "C23": {"channels", "ret"},
}


def breaks(pid, m):
    a = m["a"]
    kind = a.split(":")[0]
    want = ASPECTS[pid]
    if kind in want:
        return True
    if pid == "C18" and m["rec"].events[m["l"] - 1].get("par"):      # what happens on one of several threads
        return True
    return "code" in want and ("code" in str(m["exp"]) or "code" in str(m["obs"]) or "refused" in str(m["exp"]))
