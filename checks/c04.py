"""C04: histories of the code-generation scalar (spec/Scalar.tla) on the real one."""
import math
from vlib import *

SMALL = "CONSTANTS NR = %d Steps = %d Small = TRUE\nSPECIFICATION SpecSmall\nINVARIANTS Meaning Constness Values\nVIEW SmallView\nCHECK_DEADLOCK FALSE\n"
GENC = "CONSTANTS NR = 5 Steps = %d Small = FALSE\nSPECIFICATION Spec\nINVARIANTS Meaning Constness Values EmitInv\nCHECK_DEADLOCK FALSE\n"
NP = 3
BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}
FUN = {"neg": lambda a: -a, "pos": lambda a: a, "abs": abs, "fabs": abs, "sign": lambda a: (a > 0) - (a < 0), "log10": math.log10}
CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ge": lambda a, b: a >= b, "gt": lambda a, b: a > b, "ne": lambda a, b: a != b}


def q(v): return v[0] / v[1]
def fun(f): return FUN.get(f) or getattr(math, f)


def ap(f, *xs):
    """a finite number of moderate size, or None where nothing is demanded"""
    if any(x is None for x in xs): return None
    try: v = f(*xs)
    except (ValueError, ZeroDivisionError, OverflowError): return None
    return v if not isinstance(v, complex) and math.isfinite(v) and abs(v) < 1e8 else None


def power(a, b):
    return 1.0 if b == 0 else a ** b


def select(c, l, r, t, f):
    if t is not None and t == f: return t
    if None in (l, r): return None
    if l != r and abs(l - r) <= 1e-7 * max(1, abs(l), abs(r)): return None
    return t if CMP[c](l, r) else f


class Float:
    """plain arithmetic on the three points; inexact equalities are not decided"""
    def __init__(self, n):
        self.m = [(0.0,) * NP] * n
        self.exact = [(True,) * NP] * n

    def run(self, e):
        a, op = e["a"], e["a"]["op"]
        g = a["args"]; r = a["r"] - 1; M = lambda i: self.m[i - 1]
        if e["can"] != "yes" or op in ("cmp", "cmpc", "pred", "absgeq"): return
        el = lambda f, *xs: tuple(ap(f, *[x[p] for x in xs]) for p in range(NP))
        C = lambda c: (q(c),) * NP
        if op in ("const", "constasg", "int"): v = C(g[0])
        elif op == "default": v = (0.0,) * NP
        elif op == "indep": v = tuple(q(x) for x in g[1])
        elif op == "setvalue": v = M(a["r"]) if e["v"][r]["h"] else C(g[0])
        elif op in ("copy", "construct", "move", "movector"): v = M(g[0])
        elif op in ("bin", "asg"): v = el(BIN[g[0]], M(g[1]), M(g[2]))
        elif op in ("binc", "bini", "asgc", "asgi"): v = el(BIN[g[0]], C(g[2]), M(g[1])) if g[3] else el(BIN[g[0]], M(g[1]), C(g[2]))
        elif op == "un": v = el(fun(g[0]), M(g[1]))
        elif op == "pow": v = el(power, M(g[0]), M(g[1]))
        elif op == "powc": v = el(power, C(g[1]), M(g[0])) if g[2] else el(power, M(g[0]), C(g[1]))
        elif op == "cond": v = tuple(self.cond(g, e, p) for p in range(NP))
        else: raise CheckError("action " + op)
        self.m[r] = v

    def cond(self, g, e, p):
        c, l, r, t, f = g[0], *[self.m[i - 1][p] for i in g[1:]]
        if l is not None and l == r and not self.same(g[1], g[2], p): return t if t is not None and t == f else None
        return select(c, l, r, t, f)

    def same(self, a, b, p):
        """equal numbers are only taken for equal where they are exact"""
        return a == b or (self.prev is not None and all(self.prev[i - 1]["m"][p][1] != 0 for i in (a, b)))


def line(a, value):
    op, g = a["op"], a["args"]
    num = lambda c: repr(q(c))
    if op == "setvalue": return "setvalue %d %r" % (a["r"], value)
    if op in ("const", "constasg", "int"): g = [num(g[0])]
    elif op == "indep": g = [g[0], int(g[2])] + [num(x) for x in g[1]]
    elif op in ("binc", "bini", "asgc", "asgi"): g = [g[0], g[1], num(g[2]), int(g[3])]
    elif op == "powc": g = [g[0], num(g[1]), int(g[2])]
    elif op == "cmpc": g = [g[0], g[1], num(g[2]), int(g[3])]
    return " ".join(str(x) for x in [op, a["r"]] + list(g))


def close(got, want): return abs(got - want) <= 1e-9 * max(1, abs(want))


def operands(a):
    op, g = a["op"], a["args"]
    if op in ("bin", "asg", "cmp"): return g[1:3]
    if op in ("binc", "bini", "asgc", "asgi", "un", "cmpc", "pred"): return g[1:2]
    if op == "cond": return g[1:]
    if op in ("pow", "absgeq"): return g[:2]
    return g[:1] if op in ("powc", "copy", "construct", "move", "movector") else []


def judge(e, before, prev, res, f):
    """what is wrong after one action (None: nothing, "stop": the specification does not follow any more)"""
    st, ans, regs = res[0], res[1], [res[2 + (3 + NP) * i: 2 + (3 + NP) * (i + 1)] for i in range(len(e["v"]))]
    xs = operands(e["a"])
    undecided = any(f.m[i - 1][0] is None for i in xs) and e["a"]["r"] == 0
    # constants where the specification has expressions: the same questions may be asked differently
    other = prev is not None and any((prev[i - 1][0] == "1") != before[i - 1]["p"] for i in xs)
    if undecided or other and ((st == "exc") != (e["can"] == "no") or e["ans"] not in ("", "any")): return "stop" if e["a"]["r"] else None
    if e["can"] == "no":
        if st != "exc": return "not refused"
        if prev is not None and [x[:3] for x in regs] != [x[:3] for x in prev]: return "refused, but the operands changed"
        return None
    if st != "ok": return "refused"
    if e["ans"] not in ("", "any") and ans != e["ans"]: return "answers %s, expected %s" % (ans, e["ans"])
    for i, (x, s) in enumerate(zip(regs, e["v"])):
        par, d, m = x[0] == "1", x[1] == "1", f.m[i]
        for p in range(NP):
            if s["m"][p][1] and m[p] is not None and not close(m[p], q(s["m"][p])): raise CheckError("specification and interpreter disagree: %s %s" % (s, m))
            if m[p] is None: continue
            if x[3 + p] == "bad" or not close(float(x[3 + p]), m[p]): return "register %d means %s at point %d, expected %s" % (i + 1, x[3 + p], p, m[p])
        if s["h"] == 0 and not par: return "register %d combines constants but is not constant" % (i + 1)
        if not d and (par or s["d"] and all(v is not None for v in m)): return "register %d has no value" % (i + 1)
        if d and m[0] is not None and not close(float(x[2]), m[0]): return "register %d has the value %s, expected %s" % (i + 1, x[2], m[0])
    return None


def run(c):
    c.model_check("Scalar", SMALL % (3, 1))
    c.model_check("Scalar", SMALL % (2, c.pick(2, 3)))
    exes = {k: build("scalar" + k, ["scalar/scalar.cpp"], flags=("-O0",) + fl) for k, fl in (("", ()), ("-ndebug", ("-DNDEBUG",)))}
    ss = []
    for steps in (60, 15):
        ss += c.generate_sim("Scalar", GENC % steps, num=c.pick(300, 6000), depth=steps * 6)
    if not ss: raise CheckError("no histories")
    inp, meanings = [], []
    for i, s in enumerate(ss):
        n = len(s["log"][0]["v"]); f = Float(n); out = ["hist %d %d" % (i, n)]; ms = []
        f.prev = None
        for e in s["log"]:
            a = e["a"]
            val = None
            if a["op"] == "setvalue":
                val = f.m[a["r"] - 1][0] if e["v"][a["r"] - 1]["h"] else q(a["args"][0])
                if val is None: break
            f.run(e); f.prev = e["v"]
            out.append(line(a, val)); g = Float(n); g.m = list(f.m); ms.append(g)
        inp.append("\n".join(out)); meanings.append(ms)
    kinds = {}
    for k, exe in exes.items():
        def drive(j):
            return sh([exe], stdin="\n".join(inp[j::NCPU]) + "\n", timeout=600, check=False)
        for p in pmap(drive, range(NCPU)):
            if p.returncode == 2: raise CheckError("scalar driver: " + p.stderr[-500:])
            res = {}
            for l in p.stdout.splitlines():
                t = l.split()
                res.setdefault(int(t[1]), {})[int(t[2])] = t[3:]
            if p.returncode != 0:
                i = max(res) if res else 0
                c.violation("the program ends (status %d) after action %d" % (p.returncode, len(res.get(i, ())) - 1), {"history": inp[i].split("\n")[:len(res.get(i, ())) + 2], "variant": k})
            for i, rs in res.items():
                prev = None
                for j, e in enumerate(ss[i]["log"]):
                    r = rs.get(j)
                    if r is None: break
                    w = judge(e, ss[i]["log"][j - 1]["v"] if j else None, prev, r, meanings[i][j])
                    if w == "stop": break
                    c.validated += 1
                    kk = e["a"]["op"] + "/" + e["can"]; kinds[kk] = kinds.get(kk, 0) + 1
                    if w:
                        c.violation("%s: %s%s" % (json.dumps(e["a"]), w, " (NDEBUG)" if k else ""), {"history": inp[i].split("\n")[:j + 2], "wrong": w, "action": e})
                        break
                    n = len(e["v"]); prev = [r[2 + (3 + NP) * x: 2 + (3 + NP) * (x + 1)] for x in range(n)]
    c.cov.update(histories=len(ss), actions=kinds, rule="an action counts when the state of every register and the answer after it were compared with the specification's")
    c.sample(inp[0].split("\n")[:15])
