"""C17: systems of differential-algebraic equations (spec/Dae.tla) reduced by the real algorithms."""
import itertools
from vlib import *

CFG = "CONSTANTS NE = %d MaxO = %d Small = %s\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"


def ex(e): return "v %d" % (e[1] - 1) if e[0] == "v" else "c %d" % e[1] if e[0] == "c" else "%s %s %s" % (e[0], ex(e[1]), ex(e[2]))


def text(i, alg, fl, h):
    t = "%d %s %d %d " % (i, alg, fl, len(h["slots"])) + " ".join("%s %d %d" % (s["k"], s["u"] - 1, s["o"]) for s in h["slots"])
    t += " %d " % len(h["val"]) + " ".join("%d " % len(v) + " ".join(map(str, v)) for v in h["val"]) + " %d" % len(h["eqs"])
    return "\n".join([t] + [ex(e) for e in h["eqs"]]) + "\n"


def matching(rows):
    """size of a maximum matching of rows (sets) to their elements"""
    at = {}
    def go(i, seen):
        for j in rows[i]:
            if j not in seen:
                seen.add(j)
                if j not in at or go(at[j], seen): at[j] = i; return True
        return False
    return sum(go(i, set()) for i in range(len(rows)))


def judge(h, alg, fl, ans):
    """None or what is wrong"""
    c, slots, n = h["c"], h["slots"], len(h["eqs"])
    if ans.startswith("DIED"): return "the reduction does not end or crashes (%s)" % ans
    if ans.startswith("X "): return None if not c else "refused: " + ans[2:]
    if not ans.startswith("{"): return "failed: " + ans
    a = json.loads(ans)
    if not c: return "a structurally singular system is accepted"
    alg0 = [s for s in slots if s["k"] == "x" and h["decl"][s["u"] - 1] == 0]
    if a["res"] == "same":
        if alg == "p" and any(c): return "no reduction, the equations have to be differentiated %s times" % (c,)
        if alg == "s" and max(h["ode"]) > 1: return "no reduction, the equations have to be differentiated %s times to give an ODE" % (h["ode"],)
        if a["index"] != max(h["ode"]): return "structural index %d, expected %d" % (a["index"], max(h["ode"]))
        return None
    if alg == "p" and not any(c): return "reduced although nothing has to be differentiated"
    if alg == "s" and max(h["ode"]) <= 1: return "reduced although the index is %d" % max(h["ode"])
    nv, ne = a["vars"], a["eqs"]
    # equations: who is the derivative of whom
    level, orig, leaf = {}, {}, {}
    for i, (idd, o, anti, asg, expl) in enumerate(ne):
        if idd != i: return "equation %d has the id %d" % (i, idd)
        if expl: return "equation %d is explicit" % i
        if i < n:
            if o != i or anti >= 0: return "equation %d: original index %d, derivative of %d" % (i, o, anti)
            level[i], orig[i] = 0, i
        else:
            if o >= 0 or not 0 <= anti < i or anti not in level: return "equation %d: original index %d, derivative of %d" % (i, o, anti)
            level[i], orig[i] = level[anti] + 1, orig[anti]
    if len(set((orig[i], level[i]) for i in level)) != len(level): return "an equation is differentiated twice"
    got = [max(l for i, l in level.items() if orig[i] == e) for e in range(n)]
    for i in level:
        if level[i] == got[orig[i]]: leaf[orig[i]] = i
    if alg == "p" and got != c: return "the equations are differentiated %s times, expected %s" % (got, c)
    if alg == "s" and any(g < k - 1 or g > k for g, k in zip(got, h["ode"])): return "the equations are differentiated %s times, %s give an ODE" % (got, h["ode"])
    if a["index"] != max(got) + 1: return "structural index %d, differentiations %s" % (a["index"], got)
    if alg == "s" and max(got) != max(h["ode"]) - 1: return "structural index %d, expected %d" % (a["index"], max(h["ode"]))
    # variables
    sig = h["sig"]
    high = [max([d] + [sig[i][j] + got[i] for i in range(n) if sig[i][j] >= 0]) for j, d in enumerate(h["decl"])]
    where = {(s["u"] - 1, s["o"]): k for k, s in enumerate(slots) if s["k"] == "x"}
    for j, d in enumerate(h["decl"]):
        for o in range(d + 1, high[j] + 1):
            k = [x for x in range(len(slots), len(nv)) if nv[x][0] == where.get((j, o - 1))]
            if len(k) != 1: return "derivative %d of unknown %d: variables %s" % (o, j, k)
            where[j, o] = k[0]
    if len(nv) != len(slots) + sum(high) - sum(h["decl"]): return "%d variables, expected %d" % (len(nv), len(slots) + sum(high) - sum(h["decl"]))
    back = {k: jo for jo, k in where.items()}
    for k, (anti, der, order, oanti, oidx, fi, iv, idd, name) in enumerate(nv):
        if k in back:
            j, o = back[k]
            want = [where.get((j, o - 1), -1), where.get((j, o + 1), -1), o, where[j, 0] if o else -1, k if k < len(slots) else -1, 1, 0, k]
        else:
            want = [-1, -1, -1, -1, k, 0, int(slots[k]["k"] == "t"), k]
        have = [anti, der, order, oanti, oidx, fi, iv, idd]
        if have != want: return "variable %d (%s): [antiderivative, derivative, order, original antiderivative, original index, time dependent, time, id] = %s, expected %s" % (k, name, have, want)
        if k < len(slots) and fl & 1 and name != "v%d" % k: return "variable %d is called %s" % (k, name)
    names = [v[8] for v in nv]
    if len(set(names)) != len(names) or "" in names: return "names of the variables: %s" % names
    # the model
    if a["domain"] != len(nv) or a["range"] != len(ne): return "the model has %d variables and %d equations, announced are %d and %d" % (a["domain"], a["range"], len(nv), len(ne))
    if "vals" not in a: return "the variables are not derivatives of each other: %s" % nv
    for i, v in enumerate(a["vals"]):
        q = h["der"][orig[i]][level[i]]
        if q[1] == 0: continue
        w = q[0] / q[1]
        if v == "?" or abs(v - w) > 1e-9 * max(1, abs(w)) * 10: return "equation %d (derivative %d of equation %d) has the value %s, expected %s" % (i, level[i], orig[i], v, w)
    # the equations determine the highest derivatives
    top = {where[j, o]: j for j, o in enumerate(high)}
    rows = [[j for j in range(n) if sig[e][j] >= 0 and sig[e][j] + got[e] == high[j]] for e in range(n)]
    if alg == "p" and matching(rows) != n: return "the equations do not determine the highest derivatives"
    asg = [e[3] for e in ne]
    used = [x for x in asg if x >= 0]
    if len(set(used)) != len(used): return "a variable is assigned to several equations: %s" % asg
    for i, x in enumerate(asg):
        if x < 0:
            if alg == "p" and leaf[orig[i]] == i: return "equation %d has no assigned variable" % i
            continue
        if x not in back: return "equation %d is assigned to variable %d" % (i, x)
        j, o = back[x]
        s = sig[orig[i]][j]
        if not 0 <= o or s < 0 or o > s + level[i]: return "equation %d is assigned to variable %d, which it does not contain" % (i, x)
        if alg == "p" and leaf[orig[i]] == i and (o != high[j] or s + level[i] != o): return "equation %d is assigned to variable %d, which is not one of its highest derivatives" % (i, x)
    return None


def run(c):
    c.model_check("Dae", CFG % (2, 2, "TRUE", "Terminates Refused Least Unique OdeAtMostOneMore"))
    exe = build("dae", ["dae/dae.cpp"])
    hs = []
    for n, o, num in ((3, 1, 300), (4, 2, 500), (5, 1, 400)):
        hs += c.generate_sim("Dae", CFG % (n, o, "FALSE", "Emit"), num=c.pick(num, num * 15), depth=50)
    todo = [(2 * i + k, a, i % 8, h) for i, h in enumerate(hs) for k, a in enumerate("ps")]
    def drive(part):
        p = sh([exe], stdin="".join(text(*t) for t in part), check=False, timeout=850)
        ans, last = {}, None
        for l in p.stdout.splitlines():
            w = l.split(" ", 1)
            if w[0].isdigit():
                last = int(w[0])
                if len(w) > 1 and w[1]: ans[last] = w[1]
            elif l: ans[last] = l
        return ans
    stat = {}
    parts = [todo[k::NCPU * 4] for k in range(NCPU * 4)]
    for part, ans in zip(parts, pmap(drive, parts)):
        for i, alg, fl, h in part:
            a = ans.get(i, "no answer")
            c.validated += 1
            k = "refused" if not h["c"] else "differentiated %d times" % max(h["c"])
            stat[k] = stat.get(k, 0) + 1
            w = judge(h, alg, fl, a)
            if w: c.violation("%s: %s" % ("Pantelides" if alg == "p" else "Soares-Secchi", w),
                              {"algorithm": "Pantelides" if alg == "p" else "SoaresSecchi", "flags": fl, "variables": h["slots"], "equations": [ex(e) for e in h["eqs"]], "differentiations": h["c"], "wrong": w, "answer": a, "input": text(0, alg, fl, h)})
    c.cov.update(systems=len(hs), outcomes=stat)
    c.sample({"system": todo[-1][3]["eqs"], "answer": ans.get(todo[-1][0])})
