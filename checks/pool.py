"""Shared by C01 and C02: scenarios from PoolScenario.tla, executions of the real pool under a controlled scheduler,
validation of the recorded traces by TLC against PoolTrace.tla."""
import os, json, re, glob, subprocess
import vlib
from vlib import *

# hand-picked client programs, in addition to the generated ones
FIXED = [
    "threads 2 strategy 1 eval 0 3 4 4 4 strategy 2 eval 0 3 4 4 4 wait shutdown",
    "threads 2 strategy 1 addraw 3 1 4 4 4 1 0 1 2 strategy 2 wait shutdown",
    "threads 3 strategy 3 guided 75 addraw 4 1 4 4 4 4 1 0 1 2 3 wait shutdown",
    "threads 3 strategy 1 eval 0 4 2 3 4 5 threads 2 shutdown eval 0 4 2 3 4 5 eval 0 4 5 4 3 2 shutdown",
    "threads 4 strategy 1 addraw 2 1 4 4 1 0 1 shutdown threads 2 addraw 3 0 0 0 0 1 0 1 2 wait shutdown",
    "threads 3 verbose 1 strategy 1 addraw 4 1 4 4 4 4 1 0 1 2 3 verbose 0 wait shutdown",
    "threads 3 verbose 1 strategy 3 addraw 4 1 4 4 4 4 1 0 1 2 3 wait verbose 0 shutdown",
    "threads 1 addone 4 addone 4 addone 4 wait shutdown", "threads 3 addone -1 addone -1 addone -1 addone -1 wait addone -1 wait shutdown",
    "threads 2 strategy 2 eval 0 3 4 3 5 eval 0 3 5 3 4 eval 1 2 4 4 disabled 1 eval 0 3 4 4 4 disabled 0 eval 0 3 2 3 4 shutdown",
    "threads 2 shutdown prepare addone 4 wait shutdown", "threads 2 prepare shutdown prepare shutdown",
    "threads 2 timeref 1 nmeas 10 strategy 1 eval 0 4 2 3 4 5 eval 0 4 5 4 3 2 eval 0 4 3 3 3 3 eval 0 4 2 2 2 2 shutdown",
    "threads 2 timeref 0 nmeas 10 strategy 3 eval 0 5 2 3 4 5 4 eval 0 5 5 4 3 2 2 eval 0 5 3 3 3 3 3 shutdown",
    "threads 4 strategy 2 addraw 5 1 4 4 4 4 4 1 4 3 2 1 0 addraw 5 1 2 2 2 2 2 1 0 2 4 1 3 wait shutdown",
    "threads 3 strategy 1 addraw 1 1 4 1 0 addraw 1 1 4 1 0 strategy 3 addraw 3 1 4 4 4 1 0 1 2 wait shutdown",
    "threads 3 strategy 3 addraw 5 1 1 2 3 4 5 1 4 3 2 1 0 shutdown threads 3 addone 4 wait shutdown",
    "threads 2 strategy 1 addraw 3 1 4 4 4 1 0 1 2 strategy 2 addone 4 wait shutdown",
    "threads 3 strategy 1 nmeas 1 eval 0 4 2 3 4 5 eval 0 4 2 3 4 5 eval 0 4 2 3 4 5 threads 2 shutdown eval 0 4 2 3 4 5 eval 0 4 5 4 3 2 shutdown",
    "threads 4 strategy 1 nmeas 2 eval 0 5 4 4 4 4 4 eval 0 5 4 4 4 4 4 eval 0 5 4 4 4 4 4 shutdown threads 1 eval 0 5 4 4 4 4 4 wait shutdown",
    "threads 2 strategy 1 addraw 2 1 4 0 1 0 1 addraw 2 1 6 1 1 1 0 shutdown", "threads 2 strategy 1 addraw 3 1 8 0 0 1 0 1 2 addraw 3 1 8 0 0 1 2 1 0 shutdown threads 3 addone 4 wait shutdown",
    "threads 3 strategy 1 addraw 3 1 4 0 0 1 0 1 2 addraw 3 1 4 0 0 1 0 1 2 shutdown", "threads 4 strategy 1 addraw 4 1 4 0 0 0 1 0 1 2 3 addraw 4 1 4 0 0 0 1 0 1 2 3 addraw 4 1 4 0 0 0 1 0 1 2 3 strategy 2 addone 4 shutdown threads 2 addone 3 wait shutdown",
    "threads 2 rendez 2 0 0 wait rendez 2 0 1 wait shutdown", "threads 4 strategy 1 rendez 4 1 0 wait shutdown", "threads 3 strategy 3 rendez 3 0 0 wait shutdown threads 2 rendez 2 0 1 wait shutdown",
]


def scenarios(c):
    n = c.pick(160, 1600)
    gen = []
    for ln in c.pick((4, 8), (3, 5, 8, 12)):
        cfg = open(os.path.join(SPEC, "PoolScenario.cfg")).read().replace("MaxLen = 6", "MaxLen = %d" % ln)
        gen += c.generate_sim("PoolScenario", cfg, num=n, depth=ln + 6)
    out, seen = list(FIXED), set(FIXED)
    for g in gen:
        s = " ".join(str(x) for x in g)
        if s not in seen: seen.add(s); out.append(s)
    return out


def build_harness(c):
    d = os.path.join(vlib.BUILD, "pool-" + tree_hash([os.path.join(REPO, "include/cppad/cg/model/threadpool"), os.path.join(DRV, "pool")]))
    exe = os.path.join(d, "harness")
    if not os.path.exists(exe):
        sh(["bash", os.path.join(DRV, "pool/build.sh"), d, REPO])
    return exe


def tlc_validate(lines, c):
    """Returns [(trace index in lines, event number)] of the rejected traces."""
    rejected, idx, todo = [], list(range(len(lines))), list(lines)
    states = trans = 0
    for _ in range(5):
        if not todo: break
        f = os.path.join(c.scratch, "tr%d_%d.ndjson" % (os.getpid(), id(todo)))
        open(f, "w").write("\n".join(todo) + "\n")
        r = tlc("PoolTrace", "PoolTrace.cfg", env={"TRACES": f}, workers=1, heap="2500m", timeout=900)
        os.remove(f)
        states += r.distinct; trans += r.generated
        if r.ok: break
        ti = re.findall(r"/\\ ti = (\d+)", r.out); l = re.findall(r"/\\ l = (\d+)", r.out)
        if not ti or not (r.deadlock or r.violated): raise CheckError("PoolTrace: " + r.out[-3000:])
        k = int(ti[-1]) - 1
        rejected.append((idx[k], int(l[-1])))
        del idx[k]; del todo[k]
    return rejected, states, trans


def classify(events, l):
    """Which properties does the first event that the contract refuses concern?"""
    e = events[l - 1] if l <= len(events) else {"e": "?"}
    sub, done, dropped, op = set(), set(), set(), None
    for x in events[:l - 1]:
        if x["e"] == "call":
            op = x["op"]
            if op == "add": sub |= set(range(x["first"], x["first"] + x["n"]))
        elif x["e"] == "end": done.add(x["j"])
        elif x["e"] == "ret" and op == "shutdown": dropped = sub - done
    unfinished = sub - done - dropped
    if e["e"] in ("hang", "crash"): return {"C02"} | ({"C01"} if unfinished and op != "shutdown" else set())
    if e["e"] in ("texit", "tstart"): return {"C02"}
    if e["e"] == "ret" and op == "shutdown": return {"C02"}
    return {"C01"}


def run(c, sim_share):
    # 1. the design refines the contract
    base = open(os.path.join(SPEC, "ThreadPool.cfg")).read()
    cfg = base.replace("MaxOps = 4", "MaxOps = %d" % c.pick(3, 5))
    c.model_check("ThreadPool", cfg, timeout=1500)
    if not c.quick:
        c.model_check("ThreadPool", base.replace("W = 2  MaxJob = 1  MaxOps = 4", "W = 2  MaxJob = 2  MaxOps = 4"), timeout=3000)
    long = open(os.path.join(SPEC, "ThreadPoolLong.cfg")).read()
    c.model_check("ThreadPool", long if not c.quick else long.replace("MaxOps = 4", "MaxOps = 3"), timeout=1500)
    # 2. executions of the real pool
    exe = build_harness(c)
    sc = scenarios(c)
    scf = os.path.join(c.scratch, "scen.txt"); open(scf, "w").write("\n".join(sc) + "\n")
    secs = c.pick(20, 600)
    n = len(sc); step = (n + NCPU - 1) // NCPU
    # scenarios are dealt round robin so that every process gets some of each kind
    perm = [i for k in range(NCPU) for i in range(k, n, NCPU)]
    open(scf, "w").write("\n".join(sc[i] for i in perm) + "\n")

    def go(k):
        out = os.path.join(c.scratch, "o%d" % k)
        p = sh([exe, scf, out, k * step, (k + 1) * step, 100000, c.seed * 7919, secs], timeout=secs + 120)
        return json.loads(p.stdout.strip().splitlines()[-1]), open(out).read().splitlines()
    res = pmap(go, range(NCPU))
    execs = sum(r[0]["execs"] for r in res); points = sum(r[0]["points"] for r in res)
    # distinct event sequences only; anything with a hang, a crash, first
    lines = []
    for r in res: lines += r[1]
    bad = [x for x in lines if '"e":"hang"' in x or '"e":"crash"' in x]
    good = [x for x in lines if not ('"e":"hang"' in x or '"e":"crash"' in x)]
    cap = c.pick(6000, 120000)
    if len(good) > cap: good = good[::(len(good) // cap) + 1]
    lines = bad[:40] + good
    chunks = [lines[i::NCPU] for i in range(NCPU)]
    vr = pmap(lambda ch: tlc_validate(ch, c), chunks)
    rej = []
    for ch, (r, s, t) in zip(chunks, vr):
        c.states += s; c.transitions += t
        rej += [(ch[i], l) for i, l in r]
    c.validated += len(lines)
    c.cov.update(executions=execs, scheduling_points=points, distinct_traces=len(lines), scenarios=len(sc),
                 rule="a trace counts once per distinct sequence of API, job and thread events of one client program; "
                      "every counted trace is checked by TLC against PoolTrace.tla")
    for x in lines[:2]: c.sample(json.loads(x)["ev"][:12])
    seen = set()
    for line, l in rej:
        t = json.loads(line)
        if c.pid not in classify(t["ev"], l): continue
        e = t["ev"][l - 1] if l <= len(t["ev"]) else {}
        kind = (e.get("e"), e.get("d"), sc[perm[t["s"]]])
        if kind in seen: continue
        # confirm: the same scenario under the same seed gives the same trace
        out = os.path.join(c.scratch, "again")
        sh([exe, scf, out, t["s"], t["s"] + 1, 1, t["seed"]], timeout=120)
        again = [json.loads(x) for x in open(out).read().splitlines()]
        if not again or again[0]["ev"][:l] != t["ev"][:l]: continue
        seen.add(kind)
        c.violation("event %d %s is refused by the contract; client program: %s" % (l, json.dumps(e), sc[perm[t["s"]]]),
                    {"scenario": sc[perm[t["s"]]], "scheduler_seed": t["seed"], "trace": t["ev"], "refused_event": l,
                     "how": "drivers/pool/build.sh OUT /repo; OUT/harness <file with the scenario> out 0 1 1 <scheduler_seed>"})
        if len(seen) >= 5: break
