"""C14: recordings are evaluated again with numbers, AD, CG and AD<CG>; evaluators live as long as their recorder."""
from graphs import *
import readers

KINDS = ["num", "ad", "adlate", "adtape", "cgpar", "cgnew", "cgval", "cgself", "adcg", "cgfail", "badsize", "badsizecg"]
SMOOTH = ("rat", "smooth", "atom")


def calls_in(nodes, upto, deps):
    need, found = set(deps), False
    for k in range(upto, 0, -1):
        nd = nodes[k - 1]
        if k not in need: continue
        if nd[0] == "call": found = True; need |= set(nd[3:])
        elif nd[0] == "cond": need |= set(nd[2:])
        elif nd[0] not in ("indep", "const"): need |= set(nd[1:])
    return found


def text(s):
    t = ["session %s %s %d %d %d" % (s["id"], s["route"], s["form"], s["n"], s["deriv"])]
    for k, seg in enumerate(s["segs"]):
        if k: t.append("reset")
        t.append("pt " + " ".join(repr(x) for x in oracle.exact_point(seg["vals"], seg["nodes"])))
        t += ["node " + node_line(nd) for nd in seg["nodes"]]
        for g in seg["gens"]:
            t.append("ev %s %d %d %s %s %d %d %s" % (g["uid"], g["upto"], len(g["deps"]), " ".join(map(str, g["deps"])), g["opts"]["lang"], g["fail"], len(seg["pts"]),
                                                   " ".join(repr(float(a)) for p, _ in seg["pts"] for a in p)))
        t.append("endseg")
    return "\n".join(t + ["end", ""])


def run(c):
    exe = build("eval", ["eval/eval.cpp"])
    n = c.pick(1, 8)
    ss = []
    for prof, NI, NN, NG, NR, num in (("atom", 3, 14, 4, 1, 320), ("full", 3, 16, 4, 0, 240), ("smooth", 3, 14, 3, 1, 160), ("cond", 2, 12, 3, 0, 80),
                                      ("nest", 2, 12, 3, 0, 80), ("rat", 2, 24, 3, 2, 80), ("atom", 2, 30, 6, 0, 80)):
        new = c.generate_sim("Session", session_cfg(NI, NN, 4, prof, NG, NR, KINDS), num=num * n, depth=NN * 18)
        for s in new: s["profile"] = prof
        ss += new
    replay(c, ss, exe)
    c.sample({k: v for k, v in ss[0].items()})


def replay(c, ss, exe, npts=3):
    rng = random.Random(c.seed)
    for k, s in enumerate(ss):
        s["id"] = "s%d" % k
        s["deriv"] = rng.randrange(1, 3) if s["route"] == "ad" and s["profile"] in SMOOTH and rng.random() < 0.5 else 0
        for j, seg in enumerate(s["segs"]):
            x0 = oracle.exact_point(seg["vals"], seg["nodes"])
            seg["pts"] = []
            order = 0 if s["profile"] not in SMOOTH else 2 if s["deriv"] else 1
            try:
                vs = oracle.evaluate(seg["nodes"], x0, order, True)
                oracle.check_exact(seg["nodes"], seg["vals"], vs); seg["pts"].append((x0, vs))
            except Reject: pass
            seg["pts"] += oracle.points(seg["nodes"], x0, rng, npts, order)
            for i, g in enumerate(seg["gens"]):
                g["uid"] = "%d_%d_%d" % (k, j, i); g["fail"] = rng.randrange(3)
    ss = [s for s in ss if all(seg["pts"] for seg in s["segs"])]
    out = os.path.join(c.scratch, "ev"); shutil.rmtree(out, ignore_errors=True)
    res, dead, other = run_sessions(exe, ss, out, text)
    st = {"evaluations by kind": {}, "refusals": 0, "jacobians": 0, "read back": 0}
    for s in ss:
        rep = {"session": s, "driver": text(s)}
        if s["id"] in dead: c.violation("session %s: %s" % (s["id"], dead[s["id"]]), rep); continue
        for seg in s["segs"]:
            for g in seg["gens"]:
                u, kind = g["uid"], g["opts"]["lang"]
                r = res.get(u)
                msg = check(c, s, seg, g, kind, r, other.get(u, []), out, st)
                if msg: c.violation("evaluation %s (%s): %s" % (u, kind, msg), dict(rep, evaluation=g))
                else: c.validated += 1
    for k, v in st.items(): c.cov[k] = v


def derived(v, dw):
    """the derivative along dw as a value"""
    n = len(dw)
    d = sum(a * b for a, b in zip(v.g, dw))
    m = max(abs(a) for a in v.g)
    return oracle.D(d, [sum(dw[j] * oracle.hget(v, i, j) for j in range(n)) for i in range(n)], None, 1e-10 * (abs(d) + m + abs(v.v)))


def check(c, s, seg, g, kind, r, lines, out, st):
    st["evaluations by kind"][kind] = st["evaluations by kind"].get(kind, 0) + 1
    has = calls_in(seg["nodes"], g["upto"], g["deps"])
    if s["route"] == "ad": # the operations before an evaluation are always part of the same tape
        pass
    if r is None: return "no answer"
    for t, l in lines:
        if t == "M": return l
        if t == "L" and not (has and s["deriv"] == 2): return l
    must = kind in ("badsize", "badsizecg")
    # calls with numbers only, or failing calls, are refused; AD evaluators handle calls for values only (calls with constants are folded)
    may = has and (kind in ("num", "cgfail", "cgpar") or (s["deriv"] and kind in ("ad", "adlate", "adtape", "adcg")))
    if r[0] == "EXC":
        st["refusals"] += 1
        return None if must or may else "refused: " + r[1]
    if must: return "should have been refused"
    V = {}; J = {}; W = None
    for t, l in lines:
        w = l.split()
        if t == "V": V[int(w[0])] = [float(a) for a in w[1:]]
        if t == "W": W = [float(a) for a in w[1:]]
        if t == "J": J[int(w[0])] = [float(a) for a in w[1:]]
    dw = [float(i + 1) for i in range(s["n"])]
    for k, (x, vs) in enumerate(seg["pts"]):
        if k not in V: return "no value at point %d" % k
        if s["deriv"]: vs = [derived(v, dw) for v in vs]
        sc = max(abs(n.v) for n in vs)
        for i, d in enumerate(g["deps"]):
            if not oracle.close(V[k][i], vs[d - 1].v, vs[d - 1].e, sc):
                return "dependent %d is %r, the recording gives %r at %s" % (i, V[k][i], vs[d - 1].v, x)
            if k == 0 and W and not oracle.close(W[i], vs[d - 1].v, vs[d - 1].e, sc):
                return "the value of dependent %d is %r, the recording gives %r at %s" % (i, W[i], vs[d - 1].v, x)
        if k in J and s["profile"] in SMOOTH:
            st["jacobians"] += 1
            n = s["n"]
            gs = max([abs(a) for nd in vs for a in nd.g] + [sc])
            for i, d in enumerate(g["deps"]):
                for j in range(n):
                    if not oracle.close(J[k][i * n + j], vs[d - 1].g[j], 1e-9 * abs(gs), gs):
                        return "d dep %d / d x %d is %r, should be %r at %s" % (i, j, J[k][i * n + j], vs[d - 1].g[j], x)
    f = os.path.join(out, g["uid"] + ".dot")
    if os.path.exists(f) and not has:
        try: fn = readers.READ["dot"](open(f).read())
        except readers.ReadError as e: return "graph of the new recording cannot be read: %s" % e
        st["read back"] += 1
        for x, vs in seg["pts"]:
            if s["deriv"]: vs = [derived(v, dw) for v in vs]
            y = fn([a - 1.0 for a in x] if kind == "cgself" else x)
            for i, d in enumerate(g["deps"]):
                if not oracle.close(y[i], vs[d - 1].v, vs[d - 1].e + 1e-14 * abs(vs[d - 1].v), max(abs(n.v) for n in vs)):
                    return "dependent %d of the new recording reads as %r, should be %r" % (i, y[i], vs[d - 1].v)
    return None
