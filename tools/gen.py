"""Call sequences generated from spec/Gen.tla: TLC explores the control states of an analyser completely
and prints every transition; here they are joined into sequences that take them, for the real library to
execute and Trace.tla to judge."""
import ast, collections, os, random, shutil
from lib import *
from scenarios import *

HEAD = """SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  MB = 4
  SB = 30
  SSTEP = 10
  MaxChannels = 64
  MinRate = 16
  MaxRate = 2822400
  MinWinM = 400
  MinWinS = 3000
  MinHistM = 400
  MinHistS = 3000
  NoHistLimit = 2147483647
  NZero = 0
  AbsGate = 1
  NBins = 1
  Hop <- gHop
  MsFrames <- gMsFrames
  MsLt <- gMsLt
  CapHops <- gCapHops
  HistBlocks <- gHistBlocks
  HistStBlocks <- gHistStBlocks
  MayAlloc <- gMayAlloc
  NAdd <- gAdd
  NMulInt <- gMul
  NDivInt <- gDiv
  NLt <- gLt
  NIsNaN <- gIsNaN
  NNear <- gNear
  NWeight <- gWeight
  RelGate <- gGate
  RangeGate <- gGate
  SortByEnergy <- gSort
  BinOf <- gBinOf
  BinCentre <- gBinCentre
  Unsure <- gUnsure
  SigEnergy <- gEnergy
  SigPeak <- gPeak
  Oversampled <- gOver
  SigTruePeak <- gTruePeak
"""

# alphabet, channels, rate, mode, blocks and short-term blocks told apart
GRAPHS = {
    "C01": [("Split", 1, 16, FULL, 2, 2), ("Split", 1, 27, I | HIST, 2, 1)],
    "C02": [("Formats", 2, 16, FULL, 1, 1), ("Formats", 5, 16, TP | S, 1, 1)],
    "C03": [("Windows", 1, 16, S, 1, 1), ("WindowsM", 1, 16, M, 1, 1)],
    "C04": [("Roles", 2, 16, I, 2, 1), ("Roles", 1, 16, S, 1, 1)],
    "C05": [("Gates", 1, 16, I, 5, 1)],
    "C06": [("Ranges", 1, 16, LRA, 1, 4)],
    "C07": [("Gates", 1, 16, I | HIST, 4, 1), ("Ranges", 1, 16, LRA | HIST, 1, 3)],
    "C08": [("PeakCalls", 1, 16, SP, 1, 1), ("PeakCalls", 1, 18, SP | I, 1, 1)],
    "C09": [("PeakCalls", 1, 16, TP, 1, 1)],
    "C10": [("Resets", 1, 16, FULL, 3, 2), ("Resets", 2, 18, I | HIST, 2, 1)],
    "C11": [("Changes", 1, 16, FULL, 2, 1), ("Changes", 2, 16, S | I | HIST, 1, 1)],
    "C12": [("MaxWins", 1, 16, M, 1, 1), ("MaxWins", 1, 16, FULL, 1, 2)],
    "C13": [("Limits", 1, 16, I, 8, 1), ("LimitsSt", 1, 16, LRA, 1, 4)],
    "C14": [("Limits", 1, 16, I | LRA, 6, 1), ("LimitsSt", 1, 16, I | LRA, 1, 4)],
    "C15": [("Seeds", 1, 16, FULL, 2, 2), ("Seeds", 2, 27, TP | I | HIST, 2, 1)],
    "C16": [("Few", 1, 16, I | TP, 2, 1)],
    "C17": [("Rustless", 1, 16, I | TP, 1, 1)],
    "C18": [("Few", 1, 16, I | TP, 2, 1), ("Few", 1, 18, I | SP | HIST, 1, 1)],
    "C19": [("Few", 2, 16, I | TP, 1, 1)],
    "C20": [("Values", 1, 16, FULL, 1, 1), ("Values", 2, 16, I | SP | HIST, 1, 1)],
    "C21": [("WindowsM", 1, 18, M, 1, 1)],
    "C23": [("Roles", 2, 16, FULL, 2, 1)],
}


class Graph:
    """Nodes are numbers; 0 is the initial state. info[n] is the printed control state."""

    def __init__(self, spec, work, k):
        self.spec = spec
        name, ch, rate, mode, mb, ms = spec
        d = os.path.join(work, f"gen{k}")
        os.makedirs(d, exist_ok=True)
        text = HEAD + f"  MaxBlk = {mb}\n  MaxSt = {ms}\n  Calls <- {name}\n  StartCh = {ch}\n  StartRate = {rate}\n  StartMode = {mode}\n"
        cfg = os.path.join(d, "Gen.cfg")
        open(cfg, "w").write(text)
        rc, out = tlc("Gen", cfg, os.path.join(d, "meta"), timeout=800, workers=3, mem="5g")
        if rc != 0 or "No error has been found" not in out:
            raise ToolError(f"Gen {spec}: rc={rc}\n" + out[-2000:])
        ids, self.info, self.calls, self.adj = {}, [], [], []
        ncalls = {}

        def node(s):
            if s not in ids:
                ids[s] = len(ids)
                self.info.append(s)
                self.adj.append({})
            return ids[s]
        for m in re.finditer(r'<<"EDGE", ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*")>>', out):
            c = ncalls.get(m[2])
            if c is None:
                c = ncalls[m[2]] = len(ncalls)
                self.calls.append(json.loads(json.loads(m[2])))
            a, b = node(m[1]), node(m[3])
            if self.adj[a].setdefault(c, b) != b:
                raise ToolError(f"Gen {spec}: the control states do not determine each other")
        self.root = ids[next(s for s in ids if '\\"new\\"' in s)]
        # an order that depends on the graph alone
        self.edges = sum(len(x) for x in self.adj)
        shutil.rmtree(d, ignore_errors=True)

    def settings(self, n):
        """channels, rate, roles, window, history limit in the state"""
        s = json.loads(self.info[n]).replace("<<", "[").replace(">>", "]").replace("TRUE", "1").replace("FALSE", "0")
        v = ast.literal_eval(s)
        return v[:5]


def tours(g, rnd, budget, length=120):
    """Sequences of (call, node after it) from the initial state that together take as many different
    transitions as fit the budget; each begins by going to a random place."""
    key = lambda n: g.info[n]
    order = sorted(range(len(g.info)), key=key)
    left = {}
    for n in order:
        cs = sorted(g.adj[n], key=lambda c: json.dumps(g.calls[c], sort_keys=True))
        rnd.shuffle(cs)
        left[n] = cs
    succ = {n: sorted(set(g.adj[n].values()), key=key) for n in order}
    total = g.edges
    taken = 0

    def path(u, goal):
        """shortest way from u to a node satisfying goal, as calls"""
        back, q = {u: None}, collections.deque([u])
        while q:
            n = q.popleft()
            if goal(n):
                p = []
                while back[n] is not None:
                    m, c = back[n]
                    p.append((c, n))
                    n = m
                return p[::-1]
            for c in sorted(g.adj[n]):
                d = g.adj[n][c]
                if d not in back:
                    back[d] = (n, c)
                    q.append(d)
        return None

    res = []
    while taken < total and budget > 0:
        cand = [n for n in order if left[n]]
        t = cand[rnd.randrange(len(cand))]
        walk, u = [], g.root
        for c, n in path(u, lambda n: n == t) or []:
            walk.append((c, n))
            if c in left[u]:
                left[u].remove(c)
                taken += 1
            u = n
        while len(walk) < length:
            if left[u]:
                c = left[u].pop()
                taken += 1
                walk.append((c, g.adj[u][c]))
                u = g.adj[u][c]
                continue
            p = path(u, lambda n: bool(left[n]))
            if p is None or len(walk) + len(p) >= length:
                break
            walk += p
            u = p[-1][1]
        res.append(walk)
        budget -= len(walk)
    return res, taken


class Player:
    """Turns model calls into calls on instances."""

    def __init__(self, mk, rec, g, api=0, levels=None, special=1.0):
        self.mk, self.rec, self.g, self.api = mk, rec, g, api
        _, self.ch0, self.rate0, self.mode = g.spec[:4]
        self.i = rec.new(self.ch0, self.rate0, self.mode, api)
        self.pos = collections.Counter()
        r = 16
        lv = {0: dict(kind=None), 1: dict(lo=-63, hi=-50), 2: dict(lo=mk.pick([-3, -12, -25]))}
        if levels:
            lv[2] = levels
        self.sig = {0: rec.sig("zero"), 1: mk.program(rec, r, 2, kind="noise", silent=0, **lv[1]),
                    2: mk.program(rec, r, 2, kind=mk.pick(["noise", "noise", "sq"]), silent=0, stretch=mk.rnd.randint(1, 40), **lv[2])}
        # special values hide what comes after them until the next reset: not in every sequence
        self.special = mk.rnd.random() < special

    def entry(self, call):
        mk, op = self.mk, call["op"]
        if op in ("add", "seed"):
            x, n = call["x"], call["n"]
            if x == 3 and not self.special:
                x = 2
            if x == 3:
                kinds = ["nan", "inf", "ninf", "big", "den", "min"]
                s = self.rec.sig("noise", a=[20000], s=mk.rnd.randint(1, 999),
                                 sp=[[mk.pick([1, 2]), mk.rnd.randrange(n), mk.pick(kinds)] for _ in range(mk.pick([1, 1, 2]))])
                p = 0
            else:
                s, p = self.sig[x], self.pos[x]
                self.pos[x] += n
            fmt = mk.pick(formats(self.rec.sigs[s - 1]))
            return ("add", (s, p, n, fmt, 0 if self.api else mk.pick([0, 1]), op == "seed"))
        return {"reset": ("reset", ()), "change": ("change", (call.get("ch"), call.get("rate"))), "win": ("win", (call.get("ms"),)),
                "hist": ("hist", (call.get("ms"),)), "role": ("role", (call.get("c"), call.get("role")))}[op]

    def do(self, entry, i=None):
        getattr(self.rec, entry[0])(i or self.i, *entry[1])

    def windows(self, node, n=3):
        ch, rate, roles, win, hist = self.g.settings(node)
        ws = self.mk.windows(rate, win)
        self.mk.rnd.shuffle(ws)
        return tuple(ws[:n])


def fresh(rec, p, node, i_api=0):
    """a new instance with the settings of this state"""
    ch, rate, roles, win, hist = p.g.settings(node)
    b = rec.new(ch, rate, p.mode, i_api)
    for c, r in enumerate(roles):
        rec.role(b, c, r)
    rec.win(b, win)
    if hist != 2147483647:
        rec.hist(b, hist)
    return b


def play(pid, g, walk, mk, rec, walk2=None, g2=None):
    """One sequence as a trace, dressed up for the property."""
    import profiles
    api = {"C17": 1}.get(pid, 0)
    if pid in ("C03", "C05", "C06", "C07", "C08", "C09", "C13") and mk.rnd.random() < 0.25 and \
            not any(g.calls[c]["op"] in ("reset", "seed") for c, _ in walk):
        api = 1
    if pid == "C19":
        rec.fpenv(mk.pick(profiles.ENVS))
    p = Player(mk, rec, g, api, special=0.25 if pid == "C11" else 0.5 if pid == "C10" else 1.0)
    twin = None
    keys = ALLKEYS
    if pid in ("C01", "C02", "C16", "C17", "C18"):
        twin = rec.new(p.ch0, p.rate0, p.mode, 0)
        keys = {"C01": ACCUM, "C17": [x for x in ALLKEYS if x not in ("map", "ms", "w")]}.get(pid, ALLKEYS)
    scale = None
    if pid == "C21":
        scale = mk.pick([-3, -1, 1, 2, 5])
        twin = rec.new(p.ch0, p.rate0, p.mode, 0)
        scaled = {}
        for x, s in p.sig.items():
            d = dict(rec.sigs[s - 1])
            d["e"] = scale
            rec.sigs.append(d)
            scaled[s] = len(rec.sigs)
    mirrored = {}
    if pid == "C23":
        twin = rec.new(p.ch0, p.rate0, p.mode, 0)
        mirrored = {s: profiles.twisted(rec, s, 2, [1, 0]) for s in p.sig.values()}
    q = None
    if pid == "C14":
        q = Player(mk, rec, g2, 0, dict(lo=-20, e=mk.pick([0, 0, -2, 3])))
    node = g.root
    for k, (c, nxt) in enumerate(walk):
        call = g.calls[c]
        before = node
        node = nxt
        if pid == "C19" and mk.rnd.random() < 0.4:
            rec.fpenv(mk.pick(profiles.ENVS))
        if pid == "C16" and mk.rnd.random() < 0.6:
            ch, rate = g.settings(before)[:2]
            profiles.invalid(mk, rec, p.i, ch, rate, p.mode, p.api)
        e = p.entry(call)
        p.do(e)
        ws = p.windows(node)
        changed = g.settings(before)[:2] != g.settings(node)[:2]
        if pid == "C01":
            if e[0] == "add" and e[1][2] > 1 and not e[1][5]:
                s, f, n, fmt, lay, sd = e[1]
                cuts = sorted({0, n} | {mk.rnd.randint(1, n - 1) for _ in range(mk.pick([1, 1, 2, 3]))})
                for a, b in zip(cuts, cuts[1:]):
                    rec.add(twin, s, f + a, b - a, mk.fmt(), mk.pick([0, 1]))
            else:
                p.do(e, twin)
        elif pid == "C02":
            if e[0] == "add":
                s, f, n, fmt, lay, sd = e[1]
                e = ("add", (s, f, n, mk.fmt(), mk.pick([0, 1]), sd))
            p.do(e, twin)
        elif pid == "C21":
            if e[0] == "add":
                s, f, n, fmt, lay, sd = e[1]
                e = ("add", (scaled[s], f, n, F64, lay, sd))
            p.do(e, twin)
        elif pid == "C23":
            if e[0] == "add" and g.settings(before)[0] == 2:
                s, f, n, fmt, lay, sd = e[1]
                e = ("add", (mirrored[s], f, n, mk.fmt(), mk.pick([0, 1]), sd))
            elif e[0] == "role" and g.settings(before)[0] == 2:
                e = ("role", (1 - e[1][0], e[1][1]))
            p.do(e, twin)
            if changed:      # the default roles of the new number of channels are not symmetric
                for c in range(g.settings(node)[0]):
                    rec.role(p.i, c, 1)
                    rec.role(twin, c, 1)
        elif pid == "C10":
            if call["op"] == "reset":
                if twin:
                    rec.destroy(twin)
                twin = fresh(rec, p, node)
            elif twin:
                p.do(e, twin)
        elif pid == "C11":
            if call["op"] == "change" and changed:
                if twin:
                    rec.destroy(twin)
                twin = fresh(rec, p, node)
                keys = ["m", "s", "w", "psp", "ptp", "cfg", "map"]
            elif twin:
                p.do(e, twin)
        elif twin:
            p.do(e, twin)
        if pid == "C18":
            if mk.rnd.random() < 0.3:
                rec.multi([p.i], mk.pick([True, False]))
            rec.obs(p.i, ws)
            if k % 7 != 6 and k != len(walk) - 1:
                continue
        else:
            rec.obs(p.i, ws)
        if twin:
            rec.obs(twin, ws)
            if mirrored:
                two = g.settings(node)[0] == 2
                rec.channels(p.i, twin, [[0, 1], [1, 0]] if two else [[0, 0]], profiles.LOUDKEYS)
            elif scale is not None:
                rec.diff(p.i, twin, scale)
            else:
                rec.eq(p.i, twin, keys)
        if q:
            if k < len(walk2):
                q.do(q.entry(g2.calls[walk2[k][0]]))
            for rng in (False, True):
                ids = [p.i, q.i]
                mk.rnd.shuffle(ids)
                rec.multi(ids, rng)
    return rec


def chunk_traces(seed, work, budget):
    """Programmes and ways of cutting them, enumerated by TLC from Chunks with the real block structure."""
    import profiles, models
    cfg = os.path.join(work, "chunks.cfg")
    consts = models.SMALL.replace("MB = 2", "MB = 4").replace("SB = 3", "SB = 30").replace("SSTEP = 2", "SSTEP = 10")
    open(cfg, "w").write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + consts +
                         "  Levels = {0, 1, 9}\n  MaxHops = 8\n  Rate = 1\n  Mode = 5\n  Shown = TRUE\nINVARIANTS OnePass SameLoudness Show\n")
    rc, out = tlc("Chunks", cfg, os.path.join(work, "metachunks"), timeout=800, workers=3, mem="5g")
    shutil.rmtree(os.path.join(work, "metachunks"), ignore_errors=True)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError(f"Chunks: rc={rc}\n" + out[-2000:])
    found = set()
    for m in re.finditer(r'<<"CHUNKS", "<<([\d, ]*)>>", "\{([\d, ]*)\}">>', out):
        if m[2]:
            found.add((tuple(int(x) for x in m[1].split(",")), tuple(sorted(int(x) for x in m[2].split(",")))))
    found = sorted(found)
    mk = Maker(seed, "chunkgen")
    pick = mk.rnd.sample(found, min(len(found), budget))
    recs, per = [], 12
    for k in range(0, len(pick), per):
        mk = Maker(seed, f"chunkgen{k}")
        rec = Rec(f"cut{k}")
        rate, ch = mk.pick([4000, 4000, 8000]), mk.pick([1, 1, 2])
        mode = mk.pick([I, I, I | HIST, I | TP])
        db = {0: 0, 1: 10 ** (mk.rnd.uniform(-73, -60) / 20), 9: 10 ** (mk.rnd.uniform(-55, 0) / 20)}
        for audio, cuts in pick[k: k + per]:
            sig = rec.sig("noise", a=[mk.rnd.randint(15000, 32767)], s=mk.rnd.randint(1, 32000), h=hop(rate),
                          lev=[round(32768 * (db[x] if x else 0)) for x in audio])
            profiles.chunked(mk, rec, rate, ch, mode, sig, len(audio) * hop(rate), cuts)
        recs.append(rec)
    cover = dict(module="Chunks", behaviours=len(found), behaviours_executed=len(pick))
    return recs, [cover]


def traces(pid, seed, work, budget):
    """(traces, what they cover)"""
    if pid == "C22":
        return chunk_traces(seed, work, budget // 8)
    recs, cover = [], []
    specs = GRAPHS[pid]
    with ThreadPoolExecutor(2) as ex:
        graphs = list(ex.map(lambda a: Graph(a[1], work, a[0]), enumerate(specs)))
    for k, g in enumerate(graphs):
        mk = Maker(seed, f"tour{pid}{k}")
        ts, taken = tours(g, mk.rnd, budget // len(graphs))
        others = None
        if pid == "C14":
            g2 = graphs[1 - k]
            others, _ = tours(g2, mk.rnd, budget // len(graphs))
        for j, walk in enumerate(ts):
            name = f"gen{k}x{j}"
            m = Maker(seed, pid + name)
            w2 = others[j % len(others)] if others else None
            recs.append(play(pid, g, walk, m, Rec(name), w2, g2 if others else None))
        cover.append(dict(alphabet=g.spec[0], channels=g.spec[1], rate=g.spec[2], mode=g.spec[3], control_states=len(g.info),
                          transitions=g.edges, transitions_executed=taken, sequences=len(ts), calls=sum(len(t) for t in ts)))
    return recs, cover
