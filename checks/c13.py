"""C13: histories of libraries, models and user functions (spec/Life.tla) on the real objects."""
import os, subprocess
from vlib import *

CFG = "CONSTANTS Steps = %d\nSPECIFICATION LSpec\nINVARIANTS Owners Closed Owned LEmit\nCHECK_DEADLOCK FALSE\n"


def ops(log):
    for a in log:
        op, x, b = a["op"], a["a"], a["b"]
        if op == "model": yield "model %d %s" % (x, b or "-")
        elif op in ("movelib", "movemodel"): yield "%s %d %d" % (op, x, bool(b))
        elif op == "adduser": yield "adduser %d %d" % (x, b)
        elif op == "addext": yield "addext %d %d %s" % (x, b[0], b[1])
        elif op in ("call", "badcall"):
            q = b if op == "call" else b["q"]
            s = "%s %d %s %d %s" % (op, x, q["r"], q["form"], " ".join(str(v) for v in q["x"] + q["w"] + q["d"]))
            yield s + (" %d" % b["which"] if op == "badcall" else "")
        else: yield "%s %d" % (op, x)


def judge(a, res):
    """what is wrong with the answer to one action (None: nothing)"""
    st, vals = res[0], res[1:]
    if a["can"] == "no": return None if st == "exc" else "not refused, answered %s" % " ".join(vals)
    if st != "ok": return None if a["can"] == "maybe" and st == "exc" else "refused: " + " ".join(vals)
    if a["op"] == "names": want = sorted(a["ans"]); return None if vals == want else "names %s, expected %s" % (vals, want)
    want = [float(v) for v in a["ans"]]
    got = [float(v) for v in vals]
    if len(got) != len(want) or any(not abs(g - w) <= 1e-9 * max(1, abs(w)) for g, w in zip(got, want)): return "answered %s, expected %s" % (got, want)
    return None


def run(c):
    exe = build("life", ["life/life.cpp"])
    ss, seen = [], set()
    for steps in (60, 25):
        for s in c.generate_sim("Life", CFG % steps, num=c.pick(160, 3000), depth=steps * 7):
            k = json.dumps(s["log"])
            if k not in seen: seen.add(k); ss.append(s)
    if not ss: raise CheckError("no histories")
    head = ""
    for f in ss[0]["files"]:
        head += "file %s\n" % f["threads"]
        for d in f["defs"]: head += "def %s %s %d %s\n" % (d["name"], d["kind"], d["k"], " ".join(sorted(d["opts"])))
    head += "build\n"

    def drive(k):
        d = os.path.join(c.scratch, "w%d" % k); os.makedirs(d, exist_ok=True)
        inp = head + "".join("scn %d\n%s\ngo\n" % (i, "\n".join(ops(ss[i]["log"]))) for i in range(k, len(ss), NCPU))
        p = subprocess.run([exe, d], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=800)
        return p
    kinds, refused = {}, 0
    for k, p in enumerate(pmap(drive, range(NCPU))):
        if p.returncode != 0: raise CheckError("life driver: rc %d %s" % (p.returncode, p.stderr[-2000:]))
        res, ended, died = {}, set(), {}
        for l in p.stdout.splitlines():
            t = l.split()
            if not t: continue
            if t[0] == "NOBUILD":
                c.violation("library %s cannot be built: %s" % (t[1], l), {"file": ss[0]["files"][int(t[1]) - 1], "message": l}, key="build"); return
            if t[0] == "R" and len(t) > 3: res[int(t[1]), int(t[2])] = t[3:]
            elif t[0] == "END": ended.add(int(t[1]))
            elif t[0] == "DIED": died[int(t[1])] = int(t[2])
        for i in range(k, len(ss), NCPU):
            log = ss[i]["log"]
            for n, a in enumerate(log):
                r = res.get((i, n))
                if r is None: break
                c.validated += 1
                kk = a["op"] + ("/" + a["b"]["r"] if a["op"] == "call" else "") + "/" + a["can"]
                kinds[kk] = kinds.get(kk, 0) + 1
                w = judge(a, r)
                if w:
                    c.violation("%s: %s" % (json.dumps({x: a[x] for x in ("op", "a", "b")})[:200], w), {"history": list(ops(log))[:n + 1], "wrong": w, "action": a, "files": ss[i]["files"]})
                    break
            else:
                n = len(log)
            if i in died or i not in ended:
                where = max([x for (j, x) in res if j == i], default=-1) + 1
                c.violation("the program ends (%s) at action %d of a history: %s" % (died.get(i), where, (list(ops(log)) + ["deleting everything"])[where]),
                            {"history": list(ops(log))[:where + 1], "status": died.get(i), "files": ss[i]["files"]})
    c.cov.update(histories=len(ss), actions=kinds, rule="an action counts when its answer was compared with the specification's")
    c.sample(ss[0]["log"][:10])
