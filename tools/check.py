#!/usr/bin/env python3
"""check.py C01            decides one property on /repo's working tree
   check.py --replay FILE  checks the recorded calls of a violation again"""
import json, os, sys, time, shutil, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import gen, profiles, models
from concurrent.futures import ThreadPoolExecutor

FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known_findings(pid):
    """lines 'finding: property=<id> trace=<name> aspect=<aspect> event=<n> <text>'"""
    res = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) trace=(\S+) aspect=(\S+) event=(\d+) (.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3), int(m.group(4)), m.group(5)))
    return res


def save_replay(pid, m, path):
    rec = m["rec"]
    # the calls up to the one that showed the disagreement
    n, upto = 0, len(rec.cmds)
    for k, (text, tmpl) in enumerate(rec.cmds):
        if tmpl is not None:
            n += 1
            if n == m["l"]:
                upto = k + 1
                break
    evs = rec.events[: m["l"]]
    cmds = rec.cmds[:upto]
    if sum(1 for t, _ in cmds if t == "P") > sum(1 for t, _ in cmds if t == "Q"):
        cmds.append(("Q", None))
    json.dump(dict(property=pid, trace=rec.name, aspect=m["a"], instance=m["i"], event=m["l"], expected=m["exp"], observed=m["obs"],
                   sigs=rec.sigs, cmds=cmds, events=evs, precise=rec.precise), open(path, "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    build_spec()
    rec = Rec(d["trace"])
    rec.precise = d.get("precise", False)
    build_harness(rec.precise)
    rec.sigs = d["sigs"]
    rec.cmds = [(a, b) for a, b in d["cmds"]]
    work = os.path.join(WORK, "replay")
    shutil.rmtree(work, ignore_errors=True)
    stats, mm = run_traces([rec], work)
    bad = [m for m in mm if profiles.breaks(d["property"], m)]
    for m in bad:
        print(f"event {m['l']} instance {m['i']} aspect {m['a']}: expected {m['exp']}, observed {m['obs']}")
    if bad:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("no disagreement")
    return 0


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(WORK, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build_spec()
    build_harness(pid in profiles.PRECISE)
    t1 = time.time()

    pool = ThreadPoolExecutor(2)
    sequences = pool.submit(gen.traces, pid, seed, work, 6000 if tier == "quick" else 10**9)
    model_runs = pool.submit(models.run_models, pid, tier, work, 800 if tier == "quick" else 7200)
    total = dict(traces=0, states=0, compared=0, numbers=0, open=0, mismatches=0, events=0, record_s=0, check_s=0)
    violations, others, samples = [], {}, []
    batches = 1 if tier == "quick" else 12
    generated, cover = [], []
    b = 0
    while b < batches or generated:
        if b < batches:
            recs = profiles.PROFILES[pid](seed + 1000003 * b, 1)
        else:
            recs, generated = generated[:200], generated[200:]
        stats, mm = run_traces(recs, os.path.join(work, f"b{b}"), timeout=850 if tier == "quick" else 3600)
        for k in total:
            total[k] += stats[k]
        if b == 0:
            samples = [dict(trace=r.name, calls=[t for t, _ in r.cmds if t][:25]) for r in recs[:2]]
        for m in mm:
            if profiles.breaks(pid, m):
                violations.append(m)
            else:
                others[m["a"]] = others.get(m["a"], 0) + 1
        shutil.rmtree(os.path.join(work, f"b{b}"), ignore_errors=True)
        b += 1
        if violations:
            break
        if b == batches:
            generated, cover = sequences.result()

    mc = dict(states=0, transitions=0, runs=[])
    for label, states, transitions in model_runs.result():
        mc["states"] += states
        mc["transitions"] += transitions
        mc["runs"].append(dict(model=label, distinct_states=states, transitions=transitions))

    proved = models.proofs(pid, tier, work)

    known = known_findings(pid)
    listed, fresh = set(), []
    for m in violations:
        hit = [f for f in known if (f[0], f[1], f[2]) == (m["rec"].name, m["a"], m["l"])]
        if hit:
            listed.add(hit[0])
        else:
            fresh.append(m)
    for f in sorted(listed):
        print(f"KNOWN-FINDING: property={pid} {f[3]}")
    code = 0
    if fresh:
        code = 1
        fresh.sort(key=lambda m: (len(m["rec"].events[: m["l"]]), m["rec"].name))
        best = fresh[0]
        path = os.path.join(work, "violation.json")
        save_replay(pid, best, path)
        for m in fresh[:8]:
            print(f"  trace {m['rec'].name} event {m['l']} instance {m['i']} aspect {m['a']}: expected {m['exp']}, observed {m['obs']}")
        print(f"VIOLATION property={pid} replay={path}")

    cov = dict(states=mc["states"] + total["states"], transitions=mc["transitions"] + total["events"],
               model_states=mc["states"],
               traces_validated_against_impl=total["traces"],
               samples=samples or [dict(note="none")],
               events_checked=total["events"], comparisons=total["compared"], numbers_compared=total["numbers"],
               left_open=total["open"], model_runs=mc["runs"], proofs=proved, generated_from_model=cover, disagreements_of_other_properties=others)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 1),
              violations=len(fresh), assumptions=[])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid}: {total['traces']} traces, {total['events']} events, {total['compared']} comparisons ({total['numbers']} of numbers, "
          f"{total['open']} left open), build {t1 - t0:.0f} s, record {total['record_s']:.0f} s, check {total['check_s']:.0f} s; other: {others}")
    return code


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except ToolError as e:
        print("error:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
