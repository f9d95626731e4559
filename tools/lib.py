"""Shared machinery: building, recording executions of the real library, checking them with TLC."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
REPO = "/repo"
TLA = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
EXECUTOR = os.path.join(HARNESS, "target/release/executor")
PRECISE = os.path.join(HARNESS, "target/precise/release/executor")     # with the feature precision-true-peak
CORES = 8
DEFAULT_ENV = 0x1F80
CLIP = 2**31 - 1


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- building
def build_spec():
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java")))]
    out = os.path.join(SPEC, "classes")
    stamp = os.path.join(out, "stamp")
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-cp", TLA, "-d", out] + src, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("javac: " + r.stderr)
    open(stamp, "w").write(h)


def repo_hash():
    """Of everything the build of the library reads."""
    h = hashlib.sha256()
    names = ["Cargo.toml", "build.rs"]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        names += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    for n in sorted(names):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            h.update(n.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build_harness(precise=False):
    """Builds the executor from /repo's working tree.  cargo decides by file times; a tree whose
    files changed without newer times is rebuilt all the same, because the hash of its contents is
    remembered with the executor."""
    h = repo_hash()

    def build(target, executor, extra):
        stamp = os.path.join(target, "repo-hash")
        env = dict(os.environ, CARGO_TARGET_DIR=target)
        env.pop("RUSTFLAGS", None)
        if not (os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(executor)):
            subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "ebur128"], cwd=HARNESS, env=env,
                           capture_output=True, text=True)
            if os.path.exists(executor):
                os.remove(executor)
        r = subprocess.run(["cargo", "build", "--release", "--offline"] + extra, cwd=HARNESS, env=env, capture_output=True, text=True)
        if r.returncode:
            raise ToolError("cargo build: " + r.stderr[-3000:])
        open(stamp, "w").write(h)

    with ThreadPoolExecutor(2) as ex:
        jobs = [ex.submit(build, os.path.join(HARNESS, "target"), EXECUTOR, [])]
        if precise:
            jobs.append(ex.submit(build, os.path.join(HARNESS, "target/precise"), PRECISE, ["--features", "precise"]))
        for j in jobs:
            j.result()


# ---------------------------------------------------------------- recording
def wide(ms):
    return [ms >> 48, (ms >> 24) & 0xFFFFFF, ms & 0xFFFFFF]


I16, I32, F32, F64 = 0, 1, 2, 3


class Rec:
    """One trace: commands for the executor and the events they become."""

    def __init__(self, name):
        self.name = name
        self.cmds = []      # (text, event template or None); "G" commands have no answer
        self.sigs = []
        self.n = 0
        self.env = DEFAULT_ENV
        self.cost = 1.0
        self.apis = {}
        self.modes = {}
        self.chs = {}
        self.precise = False
        self.inpar = False

    # signals: sid is local to the trace, made global when sharded
    def sig(self, k, a=(20000,), s=1, h=1 << 30, lev=(32768,), p=10, e=0, low=0, f32=0, fr=997000, rate=48000, sp=(), cp=()):
        d = dict(k=k, a=list(a), lev=list(lev), s=s, h=h, p=p, e=e, low=low, f32=f32, fr=fr, rate=rate,
                 sp=[list(x) for x in sp], cp=list(cp))
        self.sigs.append(d)
        return len(self.sigs)

    def _do(self, text, **ev):
        ev["env"] = self.env
        if self.inpar:
            ev["par"] = 1
        self.cmds.append((text, ev))

    def new(self, ch, rate, mode, api=0):
        self.n += 1
        i = self.n
        self.apis[i] = api
        self.modes[i] = mode
        self.chs[i] = ch
        self._do(f"N {i} {api} {ch} {rate} {mode}", ev="new", i=i, api=api, ch=min(ch, CLIP), rate=min(rate, CLIP), mode=mode)
        return i

    def add(self, i, sig, frm, n, fmt=F64, lay=0, seed=False):
        self.cost += n * 2e-5 * max(1, self.chs.get(i, 1))
        self._do(f"{'E' if seed else 'A'} {i} @{sig} {frm} {n} {fmt} {lay}", ev="seed" if seed else "add", i=i,
                 sig=sig, **{"from": frm}, n=n)

    def seed(self, i, sig, frm, n, fmt=F64, lay=0):
        self.add(i, sig, frm, n, fmt, lay, True)

    def raw(self, i, fmt, planar, lens, seed=False):
        s = self.sig("dc", a=(16384,))
        self._do(f"B {i} {int(seed)} {fmt} {int(planar)} {','.join(map(str, lens)) or '-'}", ev="raw", i=i, sig=s,
                 seed=int(seed), planar=int(planar), lens=list(lens))

    def count(self, i, fmt, frames):
        self._do(f"X {i} {fmt} {frames}", ev="count", i=i, n=wide(frames))

    def reset(self, i):
        self._do(f"R {i}", ev="reset", i=i)

    def change(self, i, ch, rate):
        self._do(f"C {i} {ch} {rate}", ev="change", i=i, ch=min(ch, CLIP), rate=min(rate, CLIP))

    def win(self, i, ms):
        self._do(f"W {i} {ms}", ev="win", i=i, ms=wide(ms))

    def hist(self, i, ms):
        self._do(f"H {i} {ms}", ev="hist", i=i, ms=wide(ms))

    def role(self, i, c, role):
        self._do(f"K {i} {c} {role}", ev="role", i=i, c=min(c, CLIP), role=role)

    def map(self, i, roles):
        self._do(f"M {i} {','.join(map(str, roles)) or '-'}", ev="map", i=i, map=list(roles))

    def obs(self, i, windows=()):
        self.cost += 0.02
        self._do(f"O {i} {','.join(map(str, windows)) or '-'}", ev="obs", i=i)

    def together(self, i, n, windows=()):
        """n threads ask instance i at the same time"""
        self.cost += 0.02
        self._do(f"Z {i} {n} {','.join(map(str, windows)) or '-'}", ev="together", i=i)

    def lives(self, api, ch, rate, mode):
        self._do(f"L {api} {ch} {rate} {mode}", ev="lives")

    def version(self):
        self._do("V", ev="version")

    def multi(self, insts, rng=False, api=0, whole=None):
        more = {"is": list(insts)}
        if whole:
            more["whole"] = whole
        self._do(f"U {'c' if api else ''}{'r' if rng else 'g'} {','.join(map(str, insts)) or '-'}", ev="multi", range=int(rng), **more)

    def channels(self, a, b, pairs, keys=()):
        self.cmds.append((None, dict(ev="channels", a=a, b=b, pairs=[list(p) for p in pairs], keys=list(keys), ret=0, fe=0, env=0)))

    def chunks(self, insts, whole):
        self.cmds.append((None, dict(ev="chunks", whole=whole, ret=0, fe=0, env=0, **{"is": list(insts)})))

    def destroy(self, i):
        self._do(f"D {i}", ev="destroy", i=i)

    def eq(self, a, b, keys):
        self.cmds.append((None, dict(ev="eq", a=a, b=b, keys=list(keys), ret=0, fe=0, env=0)))

    def level(self, i, lufs, tol, keys=("m", "s")):
        self.cmds.append((None, dict(ev="level", i=i, x=round(lufs * 100), tol=round(tol * 100), keys=list(keys), ret=0, fe=0, env=0)))

    def diff(self, a, b, e):
        self.cmds.append((None, dict(ev="diff", a=a, b=b, e=e, ret=0, fe=0, env=0)))

    def fpenv(self, bits):
        self.env = bits
        self.cmds.append((f"F {bits}", None))

    def par(self):
        self.cmds.append(("P", None))
        self.inpar = True

    def join(self):
        self.cmds.append(("Q", None))
        self.inpar = False


class Shard:
    def __init__(self):
        self.recs, self.cost = [], 0.0


def script(rec, base):
    """Executor input of one trace; signal ids are shifted by base."""
    out = [f"T {rec.name}"]
    for k, s in enumerate(rec.sigs):
        sp = ",".join(f"{c}:{i}:{q}" for c, i, q in s["sp"]) or "-"
        out.append(f"G {base + k + 1} {s['k']} {','.join(map(str, s['a']))} {s['s']} {s['h']} "
                   f"{','.join(map(str, s['lev']))} {s['p']} {s['e']} {s['low']} {s['fr']} {s['rate']} {sp} {s['f32']} {','.join(map(str, s['cp'])) or '-'}")
    for text, _ in rec.cmds:
        if text is not None:
            out.append(re.sub(r"@(\d+)", lambda m: str(base + int(m.group(1))), text))
    return out


def run_executor(lines, timeout, flush=False, precise=False):
    try:
        r = subprocess.run([PRECISE if precise else EXECUTOR] + (["--flush"] if flush else []), input="\n".join(lines) + "\n",
                           capture_output=True, text=True, timeout=timeout)
        return r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return (out.decode() if isinstance(out, bytes) else out), "timeout"


def events_of(rec, answers, how):
    """Merges answers into the events. A missing answer is the call that crashed or hung."""
    evs = []
    k = 1
    for text, tmpl in rec.cmds:
        if text is None:
            evs.append(dict(tmpl))
            continue
        a = answers[k] if k < len(answers) else None
        k += 1
        if tmpl is None:
            if a is None:
                # a crash while threads ran in parallel: blame the first call of the section
                evs.append(dict(ev="new", i=0, api=0, ch=1, rate=48000, mode=1, ret=10 if how != "timeout" else 11, fe=DEFAULT_ENV, env=DEFAULT_ENV))
                return evs
            continue
        e = dict(tmpl)
        if a is None:
            e.update(ret=11 if how == "timeout" else 10, fe=e["env"])
            evs.append(e)
            return evs
        e.update(a)
        evs.append(e)
    return evs


def record(shard, timeout):
    for precise in (False, True):
        recs = [r for r in shard.recs if r.precise == precise]
        if recs:
            record_with(recs, timeout, precise)


def record_with(recs, timeout, precise):
    lines, bases, nsig = [], [], 0
    for rec in recs:
        bases.append(nsig)
        lines += script(rec, nsig)
        nsig += len(rec.sigs)
    out, rc = run_executor(lines, timeout, precise=precise)
    got = out.split("\n")
    per, crashed = [], rc != 0
    if not crashed:
        answers = [json.loads(x) for x in got if x]
        pos = 0
        for rec in recs:
            n = 1 + sum(1 for t, _ in rec.cmds if t is not None)
            per.append((answers[pos:pos + n], 0))
            pos += n
        if pos != len(answers):
            raise ToolError("executor answers do not match its script")
    else:
        # one trace at a time, to find the call that ended the process
        for rec, b in zip(recs, bases):
            o, r = run_executor(script(rec, b), timeout, True, precise)
            ls = o.split("\n")
            good = []
            for x in ls:
                try:
                    good.append(json.loads(x))
                except ValueError:
                    break
            n = 1 + sum(1 for t, _ in rec.cmds if t is not None)
            if r == 0 and len(good) != n:
                raise ToolError("executor answers do not match its script")
            per.append((good, r))
    for rec, (ans, how) in zip(recs, per):
        rec.events = events_of(rec, ans, how)


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, meta, env=None, timeout=800, workers=1, mem="3g", extra=(), jvm=()):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", f"-Xmx{mem}", "-Xss64m", f"-Djava.io.tmpdir={os.path.dirname(os.path.abspath(meta))}"] + gc + list(jvm) + [
        "-cp", f"{os.path.join(SPEC, 'classes')}:{TLA}:{DEPS}", "tlc2.TLC", "-config", cfg, "-metadir", meta,
        "-workers", str(workers), "-noGenerateSpecTE"] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} did not finish in {timeout} s")
    return r.returncode, r.stdout + r.stderr


def parse_prints(out, tag):
    res = []
    for m in re.finditer(r'<<"%s", ("(?:[^"\\]|\\.)*")>>' % tag, out):
        res.append(json.loads(json.loads(m.group(1))))
    return res


def run_traces(recs, workdir, timeout=800, exec_timeout=240, workers=CORES):
    """Records all traces on the real library and checks them against the specification."""
    os.makedirs(workdir, exist_ok=True)
    names = [r.name for r in recs]
    if len(set(names)) != len(names):
        raise ToolError("trace names are not unique")
    n = max(1, min(CORES, len(recs)))
    sh = [Shard() for _ in range(n)]
    recs = sorted(recs, key=lambda r: -r.cost)
    for rec in recs:
        s = min(sh, key=lambda x: x.cost)
        s.recs.append(rec)
        s.cost += rec.cost
    t0 = time.time()
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda s: record(s, exec_timeout), sh))
    t1 = time.time()
    path = os.path.join(workdir, "traces.ndjson")
    dummy = dict(k="zero", a=[0], lev=[0], s=0, h=1, p=1, e=0, low=0, f32=0, fr=1, rate=1, sp=[], cp=[])
    recs.reverse()      # TLC takes the last one first
    with open(path, "w") as f:
        for rec in recs:
            f.write(json.dumps(dict(name=rec.name, sigs=rec.sigs or [dummy], events=rec.events)) + "\n")
    rc, out = tlc("Trace", "Trace.cfg", os.path.join(workdir, "meta"), dict(TRACES=path), timeout=timeout, workers=workers,
                  mem="14g", jvm=["-Dtlc2.tool.queue.IStateQueue=StateDeque"])
    done = parse_prints(out, "CONSUMED")
    if rc != 0 or len(done) != 1 or done[0]["traces"] != len(recs):
        open(os.path.join(workdir, "tlc.out"), "w").write(out)
        raise ToolError(f"TLC did not check the traces in {workdir}: rc={rc}\n" + out[-3000:])
    stats = done[0]
    mm = parse_prints(out, "MISMATCH")
    if len(mm) != stats["mismatches"]:
        raise ToolError("lost mismatch records")
    for m in mm:
        m["rec"] = recs[m["t"] - 1]
    stats["events"] = sum(len(r.events) for r in recs)
    stats["record_s"], stats["check_s"] = t1 - t0, time.time() - t1
    return stats, mm
