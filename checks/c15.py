"""C15: equations solved for their variables, and substitutions (spec/Solve.tla), on the real code handler."""
import math, random, shutil
from vlib import *
import oracle, graphs
from oracle import Reject

CFG = 'SPECIFICATION SSpec\nCONSTANTS NI = 4 DOrder = 0 NN = %d ND = 1 Profile = "rat" NS = %d ConstMode = %s\nINVARIANTS NoCycle Sound SEmit\nCHECK_DEADLOCK FALSE\n'
NI = 4


def full_points(s, rng, count):
    """points [independents.., y..] on the solution set: the specification's, and others when every residual has its own y"""
    ny = sum(r["y"] > 0 for r in s["res"])
    x0 = [oracle.qf(s["vals"][i][0]) for i in range(NI)]
    out = []
    def complete(x, exactx):
        p = list(x) + [0.0] * ny
        for r in s["res"]:
            if r["y"]: p[r["y"] - 1] = oracle.evaluate(s["nodes"], p, 0, exactx, upto=r["e"])[-1].v
        vs = oracle.evaluate(s["nodes"], p, 1, exactx)
        for r in s["res"]:
            if abs(vs[r["node"] - 1].v) > 1e-9: raise AssertionError("the point is not on the solution set: %r" % vs[r["node"] - 1].v)
        return p, vs
    for t in range(1 + (20 if ny else 0)):
        if len(out) >= count: break
        x = x0 if t == 0 else [round(a + rng.uniform(-0.3, 0.3), 6) for a in x0]
        try: p, vs = complete(x, False)
        except (Reject, OverflowError, ZeroDivisionError, ValueError): continue
        if t == 0: oracle.check_exact(s["nodes"], [(v, 0) for v, _ in s["vals"]], vs)
        out.append((p, vs, t == 0))
    return out


def negative_cosh(s, vs, upto):
    """the solution follows the positive branch of cosh"""
    return any(nd[0] == "cosh" and vs[nd[1] - 1].v < 1e-3 and any(vs[nd[1] - 1].g[:NI]) for nd in s["nodes"][:upto])


class Elimination:
    """total derivatives at one point, with the substituted variables eliminated in turn"""
    def __init__(self, vs): self.vs = vs; self.rows = []
    def reduce(self, g):
        g = list(g)
        for x, row in self.rows:
            if g[x]: g = [a - g[x] * b for a, b in zip(g, row)]
        return g
    def pivot(self, r, x): return self.reduce(self.vs[r - 1].g)[x]
    def fine(self, r, x):
        g = self.reduce(self.vs[r - 1].g)
        return abs(g[x]) > 1e-3 and max(map(abs, g)) / abs(g[x]) < 1e4
    def substitute(self, r, x):
        g = self.reduce(self.vs[r - 1].g); row = [a / g[x] for a in g]
        self.rows = [(y, [a - o[x] * b for a, b in zip(o, row)]) for y, o in self.rows] + [(x, row)]
    def undo(self, x): self.rows = [t for t in self.rows if t[0] != x]


def near(a, b, scale): return a == a and abs(a - b) <= 1e-6 * (1 + abs(b)) + 1e-9 * scale


def judge(s, pts, answers, calls):
    """-> (wrong or None, kinds)"""
    n = 0
    elims = [Elimination(vs) for _, vs, _ in pts]
    for k, a in enumerate(s["log"]):
        ans = answers.get(k)
        if ans is None: return "action %d: no answer" % k, n
        head, *vals = ans.split("|")
        head = head.split()
        if head[0] == "SKIP": return None, n
        if head[0] == "EXC": return "action %d %s: %s" % (k, a, ans), n
        if a["a"] == "gen":
            if head[0] != "OK": return "action %d %s refused: %s" % (k, a, ans), n
            calls.append((s, k, a, [int(i) for i in head[1:]])); n += 1
            continue
        if a["want"] == "no":
            if head[0] != "REFUSED": return "action %d %s is not refused" % (k, a), n
            if a["a"] == "solve" and head[1] != "0": return "action %d %s: isSolvable() and solveFor() disagree" % (k, a), n
            n += 1
            continue
        x = a["x"] - 1
        scale = [max(abs(v.v) for v in vs) for _, vs, _ in pts]
        good = [i for i, (p, vs, _) in enumerate(pts) if a["a"] in ("undo", "remove") or (elims[i].fine(a["r"], x) and not negative_cosh(s, vs, a["r"]))]
        if a["a"] == "solve":
            if a["want"] == "yes" and head[0] == "REFUSED" and good: return "action %d %s refused: %s" % (k, a, ans), n
            if head[0] == "REFUSED" and head[1] != "0" and good: return "action %d %s: isSolvable() and solveFor() disagree: %s" % (k, a, ans), n
            if head[0] == "OK":
                if head[1] != "1" or head[2] != "1": return "action %d %s: isSolvable() and solveFor() disagree: %s" % (k, a, head), n
                for i in good:
                    got = float(vals[i])
                    if not near(got, pts[i][0][x], scale[i]): return "action %d %s: the solution is %r at a point where the variable is %r" % (k, a, got, pts[i][0][x]), n
                    n += 1
                vals = vals[len(pts):]
            else: continue
        else:
            if head[0] == "REFUSED":
                if not good: return None, n
                return "action %d %s refused: %s" % (k, a, ans), n
            if a["a"] == "subst":
                if len(good) < len(pts): return None, n
                for e in elims: e.substitute(a["r"], x)
            elif a["a"] == "undo":
                for e in elims: e.undo(x)
        for i, (p, vs, _) in enumerate(pts):
            got = [float(t) for t in vals[i].split()]
            if len(got) != a["n"]: raise CheckError("values")
            for j, g in enumerate(got):
                if not near(g, vs[j].v, scale[i]): return "after action %d %s, node %d %s is %r, recorded %r (point %s)" % (k, a, j + 1, s["nodes"][j], g, vs[j].v, p), n
        n += 1
    return None, n


def text(s, pts, uid):
    t = ["session %s %d %d" % (s["id"], NI + sum(r["y"] > 0 for r in s["res"]), s["form"])]
    t += ["pt " + " ".join(map(repr, p)) for p, _, _ in pts]
    n = 0
    for k, a in enumerate(s["log"]):
        for nd in s["nodes"][n:a["n"]]: t.append("node " + graphs.node_line(nd))
        n = max(n, a["n"])
        t.append("gen f_%s_%d %s" % (s["id"], k, " ".join(map(str, a["outs"]))) if a["a"] == "gen" else "%s %d %d %d" % (a["a"], a["r"], a["x"], a.get("gone", False)))
    return "\n".join(t) + "\n"


def run(c):
    exe, runner = build("solve", ["solve/solve.cpp"]), build("graphrun", ["graph/run.cpp"])
    rng = random.Random(c.seed)
    ss = []
    for nn, ns, cm, num in ((14, 8, "FALSE", 250), (28, 12, "FALSE", 250), (14, 8, "TRUE", 150), (26, 12, "TRUE", 150)):
        ss += c.generate_sim("Solve", CFG % (nn, ns, cm), num=c.pick(num, num * 15), depth=12 * nn)
    todo = []
    for i, s in enumerate(ss):
        s["id"] = str(i); s["form"] = rng.choice([0, 0, 1, 2])
        pts = full_points(s, rng, 3)
        if pts: todo.append((s, pts))
    out = os.path.join(c.scratch, "solve")
    stat = {"sessions": len(todo)}
    def drive(j):
        d = os.path.join(out, str(j)); os.makedirs(d, exist_ok=True)
        p = sh([exe, d], stdin="".join(text(s, pts, s["id"]) for s, pts in todo[j::NCPU]), check=False, timeout=800)
        ans, last = {}, None
        for l in p.stdout.splitlines():
            w = l.split(" ", 3)
            if w[0] == "S": last = w[1]
            elif w[0] == "A" and len(w) > 3: ans.setdefault(w[1], {})[int(w[2])] = w[3]
        return p.returncode, ans, last, graphs.compile_dir(d) if os.listdir(d) else None
    calls = []
    for j, (rc, ans, last, err) in enumerate(pmap(drive, range(NCPU))):
        if rc: c.violation("the program ends (status %d) in session %s" % (rc, last), {"driver": next((text(s, p, s["id"]) for s, p in todo[j::NCPU] if s["id"] == last), None)})
        if err: c.violation("generated sources do not compile: %s" % err, {"errors": err}); continue
        dead = rc != 0
        for s, pts in todo[j::NCPU]:
            if dead and s["id"] == last: break
            cs = []
            w, n = judge(s, pts, ans.get(s["id"], {}), cs)
            c.validated += n
            for a in s["log"]: stat["%s/%s" % (a["a"], a["want"])] = stat.get("%s/%s" % (a["a"], a["want"]), 0) + 1
            if w: c.violation(w, {"wrong": w, "session": s, "driver": text(s, pts, s["id"])})
            else: calls += [(j, pts) + x for x in cs]
    # the generated functions, called without the substituted variables
    req = {}
    for j, pts, s, k, a, live in calls:
        for i, (p, vs, _) in enumerate(pts):
            req["%s_%d@%d" % (s["id"], k, i)] = ("%s_%d@%d %s f_%s_%d %d 1e30 %d %s" % (s["id"], k, i, os.path.join(out, str(j), "lib.so"), s["id"], k, len(a["outs"]), len(live),
                                                " ".join(repr(p[q]) for q in live)), s, pts, a, vs)
    got = {}
    def runpart(part):
        for l in sh([runner], stdin="\n".join(part) + "\n", check=False, timeout=600).stdout.splitlines():
            w = l.split(); got[w[0]] = w[1:]
    ls = [r[0] for r in req.values()]
    pmap(runpart, [ls[i::NCPU] for i in range(NCPU)])
    for u, (l, s, pts, a, vs) in req.items():
        r = got.get(u)
        sc = max(abs(v.v) for v in vs)
        w = None
        if r is None or r[0] in ("CRASH", "DL", "BOUNDS"): w = "calling the generated function: %s" % (r,)
        else:
            for d, y in zip(a["outs"], r):
                if not near(float(y), vs[d - 1].v, sc): w = "the generated function gives %s for node %d, recorded %r" % (y, d, vs[d - 1].v); break
        c.validated += 1
        if w: c.violation(w, {"wrong": w, "call": l, "session": s, "driver": text(s, pts, s["id"])})
    stat["generated evaluations"] = len(req)
    c.cov.update(stat)
    if todo: c.sample({"nodes": todo[0][0]["nodes"][:30], "log": todo[0][0]["log"][:8]})
    shutil.rmtree(out, ignore_errors=True)
