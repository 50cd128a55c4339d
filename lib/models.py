"""Compiled models: histories of calls generated from spec/Model.tla, performed on the real library, compared with the answers
of the specification (exact point) and of the oracle (generic points)."""
from graphs import *
from oracle import known, qf

FORMS = {"zero": 4, "jac": 2, "hess": 2, "for1": 2, "rev1": 2, "rev2": 2, "spjac": 4, "sphess": 4}
FIELDS = ["threads", "strategy", "disabled", "verbose", "guided", "meas"]
KEYS = ["zero", "jac", "hess", "for1", "rev1", "rev2", "spjac", "sphess", "reuse1", "reuse2", "heq", "typical", "optimize", "maxAsg", "maxOps", "sets", "real", "asAtomic", "mt"]


ALL = ["zero", "jac", "hess", "for1", "sfor1", "rev1", "srev1", "rev2", "srev2", "spjac", "sphess", "jsp", "hsp", "hspeq", "avail"]


def model_cfg(NI, NN, ND, profile, NQ, custom=True, asked=ALL, spec="MSpec", extra=""):
    return ("SPECIFICATION " + spec + "\nCONSTANTS NI = %d DOrder = 2 NN = %d ND = %d Profile = \"%s\" NQ = %d Custom = %s Asked = {%s}\n%s\nINVARIANT MEmit\nCHECK_DEADLOCK FALSE\n"
            % (NI, NN, ND, profile, NQ, "TRUE" if custom else "FALSE", ",".join('"%s"' % a for a in asked), extra))


def nums(a): return " ".join(repr(float(x)) for x in a)


class Mod:
    """a generated model with its points, elements and expected answers"""
    def __init__(m, s, sid, rng, npts=2):
        m.s, m.id, m.n, m.m = s, sid, s["n"], len(s["deps"])
        m.ok = False
        m.opts = dict(s["opts"])
        x0 = oracle.exact_point(s["vals"], s["nodes"])
        m.pts = []
        try:
            vs = oracle.evaluate(s["nodes"], x0, 2, True)
            oracle.check_exact(s["nodes"], s["vals"], vs); m.pts.append((x0, vs)); m.exact = True
        except (Reject, OverflowError, ZeroDivisionError, ValueError): m.exact = False
        m.pts += oracle.points(s["nodes"], x0, rng, npts, 2)
        if not m.pts: return
        m.x0 = x0
        m.ok = True
        m.scale = [1 + max(max([abs(d.v)] + [abs(a) for a in d.g] + [abs(a) for r in d.h for a in r]) for d in vs) for _, vs in m.pts]
        if m.exact: m.check_spec(m.pts[0][1])
        # elements which are certainly not identically zero
        m.nzj = {(i, j) for i in range(m.m) for j in range(m.n) for k, _ in enumerate(m.pts) if abs(m.g(k, i, j)) > 1e-7 * m.scale[k]}
        m.nzh = [{(a, b) for a in range(m.n) for b in range(m.n) for k, _ in enumerate(m.pts) if abs(m.h(k, i, a, b)) > 1e-7 * m.scale[k]} for i in range(m.m)]
        m.cj = m.custom(m.opts["cjac"], m.nzj, m.opts["sets"])
        m.ch = m.custom(m.opts["chess"], set().union(*m.nzh), m.opts["sets"])

    def g(m, k, i, j): return m.pts[k][1][m.s["deps"][i] - 1].g[j]
    def h(m, k, i, a, b): return oracle.hget(m.pts[k][1][m.s["deps"][i] - 1], a, b)
    def v(m, k, i): return m.pts[k][1][m.s["deps"][i] - 1].v
    def custom(m, req, nz, sets):
        e = [(a - 1, b - 1) for a, b in req if (a - 1, b - 1) in nz]
        return sorted(e) if sets else e

    def check_spec(m, vs):
        for i, d in enumerate(m.s["deps"]):
            d = vs[d - 1]
            for j in range(m.n):
                q = m.s["g"][i][j]
                if known(q) and abs(qf(q) - d.g[j]) > 1e-10 * m.scale[0]: raise AssertionError("specification and oracle disagree on a gradient: %s" % m.s)
                for k in range(m.n):
                    q = m.s["h"][i][j][k]
                    if known(q) and abs(qf(q) - oracle.hget(d, j, k)) > 1e-9 * m.scale[0]: raise AssertionError("specification and oracle disagree on a Hessian: %s" % m.s)

    def text(m):
        s, o = m.s, m.opts
        t = ["model %s %d %d" % (m.id, m.n, s["form"]), "pt " + nums(m.x0)]
        t += ["node " + node_line(nd) for nd in s["nodes"]]
        t.append("deps " + " ".join(map(str, s["deps"])))
        for k, v in o.items():
            if k in ("cjac", "chess"): continue
            t.append("opt %s %s" % (k, int(v) if isinstance(v, (bool, int)) else v))
        if m.cj: t.append("cjac " + " ".join("%d %d" % e for e in m.cj))
        if m.ch: t.append("chess " + " ".join("%d %d" % e for e in m.ch))
        for r in s.get("rel", []): t.append("rel " + " ".join(str(a - 1) for a in r))
        for k, c in enumerate(s["calls"]): t.append(m.query(k, c))
        return "\n".join(t + ["end", ""])

    def uid(m, k): return "%s_%d" % (m.id, k)

    def query(m, k, c):
        q = c["q"]; r = q["r"]
        if r == "config":
            c["k"], c["exact"], c["form"] = 0, False, 0
            q["ch"] = q["ch"] or {}
            return "q %s config 0 | %s" % (m.uid(k), nums([q["ch"].get(f, -1) / (4.0 if f == "guided" and f in q["ch"] else 1) for f in FIELDS]))
        c["k"] = q["pt"] % len(m.pts)
        if r == "tape": return m.tape_query(k, c)
        c["exact"] = m.exact and c["k"] == 0 and q["pt"] == 0
        x = m.pts[c["k"]][0] if r not in ("jsp", "hsp", "avail") else []
        f = q["form"] % FORMS.get(r, 1)
        sd = [[a - 1 for a, _ in q["sd"]], [b for _, b in q["sd"]]]; sw = [[a - 1 for a, _ in q["sw"]], [b for _, b in q["sw"]]]
        c["form"] = f
        a = {"zero": [x], "jac": [x], "hess": [x, q["w"]], "for1": [x, q["d"]], "sfor1": [x, *sd], "rev1": [x, q["w"]], "srev1": [x, *sw],
             "rev2": [x, q["d"], q["w"]], "srev2": [x, *sd, q["w"]], "spjac": [x], "sphess": [x, q["w"]], "hspeq": [[q["eq"] - 1]]}.get(r, [])
        if r == "zero" and f == 3: a = [x, [float(t != 0) for t in q["d"]], [float(t != 0) for t in q["w"]]]
        return "q %s %s %d %s" % (m.uid(k), r, f, "".join("| %s " % (nums(b) if r not in ("sfor1", "srev1", "srev2") or b is not a[1] else " ".join(map(str, b))) for b in a))

    # ---- the model as a function in another recording (spec/Tape.tla)
    def tape_query(m, k, c):
        q = c["q"]; t = q["tape"]
        c["exact"] = m.exact and q["pt"] == 0; c["form"] = 0
        x = m.pts[c["k"]][0]; other = m.pts[-1][0]
        return "q %s tape_%s 0 | %s | %s | %s | %s | %s | %s" % (
            m.uid(k), q["t"], nums(x), nums(other), nums(q["d"]), nums(q["w"][:len(t["out"])]),
            nums(v for a in t["arg"] for v in (a[0], a[1] - 1, a[2] - 1)),
            nums(v for o in t["out"] for v in (["lin", "mul", "arg", "sum"].index(o[0]), o[1] - 1, o[2] - 1, o[3] - 1, o[4])))

    def tape_outs(m, k, t):
        n = m.n; x = m.pts[k][0]
        zh = lambda: [[0.0] * (i + 1) for i in range(n)]
        ind = lambda j: oracle.D(x[j], [float(i == j) for i in range(n)], zh(), 0.0)
        con = lambda v: oracle.D(float(v), [0.0] * n, zh(), 0.0)
        add = lambda a, b: oracle.D(a.v + b.v, [p + q for p, q in zip(a.g, b.g)], [[p + q for p, q in zip(P, Q)] for P, Q in zip(a.h, b.h)], 0.0)
        mul = lambda a, b: oracle._mul(a, b, n, 2)
        u = []
        for j, (c, a, b) in enumerate(t["arg"]):
            if c == 9: u.append(con(x[j])); continue
            p = mul(ind(a - 1), ind(b - 1))
            u.append(add(ind(j), mul(con(c), add(p, con(-p.v)))))
        def call(i):
            g = [sum(m.g(k, i, j) * u[j].g[a] for j in range(n)) for a in range(n)]
            h = [[sum(m.g(k, i, j) * oracle.hget(u[j], a, b) for j in range(n)) + sum(u[j].g[a] * m.h(k, i, j, l) * u[l].g[b] for j in range(n) for l in range(n)) for b in range(a + 1)] for a in range(n)]
            return oracle.D(m.v(k, i), g, h, 0.0)
        y = [call(i) for i in range(m.m)]
        r = []
        for kind, i, l, j, c in t["out"]:
            i -= 1; l -= 1; j -= 1
            r.append({"lin": lambda: add(y[i], mul(con(c), ind(j))), "mul": lambda: add(mul(y[i], y[l]), con(c)),
                      "arg": lambda: mul(con(c), mul(y[i], ind(j))), "sum": lambda: add(y[i], mul(con(c), y[l]))}[kind]())
        return r

    def tape_judge(m, k, c, res, L):
        q = c["q"]; t = q["t"]; n = m.n
        if not c["ok"]:
            if res[0] == "EXC": return None
            if t not in ("jac", "hess", "spjac", "sphess") and all(a[0] != 9 for a in q["tape"]["arg"]): return "tape %s: needs routines which were not requested, but answered" % t
            # the routines that these use depend on the mode CppAD selects, and on which arguments are constants: refused, or right
        if res[0] == "EXC": return "tape %s failed: %s" % (t, res[1])
        y = m.tape_outs(c["k"], q["tape"]); M = len(y); d, w = q["d"], q["w"]
        H = lambda a, b: sum(w[i] * oracle.hget(y[i], a, b) for i in range(M))
        val = [o.v for o in y]; dr = [sum(d[j] * o.g[j] for j in range(n)) for o in y]
        adj = [sum(w[i] * y[i].g[j] for i in range(M)) for j in range(n)]; sec = [sum(d[a] * H(a, j) for a in range(n)) for j in range(n)]
        jac = [o.g[j] for o in y for j in range(n)]; hes = [H(a, b) for a in range(n) for b in range(n)]
        want = {"zero": val, "for1": val + dr, "both": val + dr, "rev1": adj, "rev2": sec + adj, "jac": jac, "spjac": jac, "hess": hes, "sphess": hes}.get(t)
        scale = 1 + max([abs(o.v) for o in y] + [abs(v) for o in y for v in o.g] + [abs(v) for o in y for r in o.h for v in r])
        got = [float(a) for a in L["A"].split()] if L["A"].strip() else []
        if want is None: # patterns: all that is not zero is in them
            full = jac if t == "jsp" else hes
            P = got
            bad = [i for i, v in enumerate(full) if abs(v) > 1e-7 * scale and not P[i]]
            return "tape %s: elements %s are not zero but missing from the pattern %s" % (t, bad, P) if bad or len(P) != len(full) else None
        if c["exact"]:
            for a, b in zip(c["a"], want):
                if known(a) and abs(qf(a) - b) > 1e-9 * scale: raise AssertionError("specification and oracle disagree on a tape: %s %s %s" % (q, c["a"], want))
        if len(got) != len(want): return "tape %s returned %d values instead of %d" % (t, len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            if not (a == a and abs(a - b) <= 1e-8 * max(1.0, scale)): return "tape %s: value %d is %r, should be %r at %s" % (t, i, a, b, m.pts[c["k"]][0])
        return None

    def dw(m, q):
        d, w = list(q["d"]), list(q["w"])
        if q["r"] in ("sfor1", "srev2"): d = coefs(q["sd"], m.n)
        if q["r"] == "srev1": w = coefs(q["sw"], m.m)
        return d, w

    def answer(m, c):
        """expected values"""
        q = c["q"]; r, k = q["r"], c["k"]
        n, M = m.n, m.m
        d, w = m.dw(q)
        inj = (lambda i, j: (i, j) in m.cj) if m.cj else lambda i, j: True
        inh = (lambda i, j: (i, j) in m.ch) if m.ch else lambda i, j: True
        H = lambda a, b: sum(w[i] * m.h(k, i, a, b) for i in range(M) if w[i])
        if r == "zero": return [m.v(k, i) for i in range(M)]
        if r == "jac": return [m.g(k, i, j) for i in range(M) for j in range(n)]
        if r == "hess": return [H(a, b) for a in range(n) for b in range(n)]
        if r in ("for1", "sfor1"): return [sum(d[j] * m.g(k, i, j) for j in range(n) if inj(i, j)) for i in range(M)]
        if r in ("rev1", "srev1"): return [sum(w[i] * m.g(k, i, j) for i in range(M) if inj(i, j)) for j in range(n)]
        if r in ("rev2", "srev2"): return [sum(d[a] * H(a, j) for a in range(n) if inh(a, j)) for j in range(n)]
        return None

    def close(m, got, want, k, r):
        fac = 1e-10 if r in ("zero",) else 1e-9
        return got == got and abs(got - want) <= fac * max(1.0, m.scale[k])

    def judge(m, k, c, res, lines):
        """an error text, or None"""
        q = c["q"]; r = q["r"]
        if res is None: return "no answer"
        if r == "tape":
            L = {}
            for t, l in lines: L.setdefault(t, l)
            return m.tape_judge(k, c, res, L)
        if r == "zero" and c["form"] == 3 and not (m.opts["spjac"] or m.opts["for1"] or m.opts["rev1"]): # needs the sparsity of the Jacobian
            return None if res[0] == "EXC" else "zero: no sparsity but flags of dependents"
        if not c["ok"]: return None if res[0] == "EXC" else "%s was not requested for this model but answered" % r
        if res[0] == "EXC": return "%s failed: %s" % (r, res[1])
        L = {}
        for t, l in lines: L.setdefault(t, l)
        kk = c["k"]
        vec = lambda t: [float(a) for a in L[t].split()] if t in L else None
        pat = lambda t: [tuple(int(b) for b in a.split(":")) for a in L[t].split()]
        want = None if r == "config" else m.answer(c)
        if want is not None:
            if c["exact"] and not (m.opts["cjac"] and not m.cj) and not (m.opts["chess"] and not m.ch):
                for a, b in zip(c["a"], want):
                    if known(a) and abs(qf(a) - b) > 1e-9 * m.scale[0]: raise AssertionError("specification and oracle disagree on an answer: %s %s %s" % (q, c["a"], want))
            got = vec("A")
            if len(got) != len(want): return "%s returned %d values instead of %d" % (r, len(got), len(want))
            for i, (a, b) in enumerate(zip(got, want)):
                if not m.close(a, b, kk, r): return "%s: value %d is %r, should be %r at %s" % (r, i, a, b, m.pts[kk][0])
            if r == "zero" and c["form"] == 3:
                vx = [t != 0 for t in q["d"]]; vy = vec("VY")
                for i in range(m.m):
                    if not vy[i] and not m.cj and any(vx[j] and (i, j) in m.nzj for j in range(m.n)): return "zero: dependent %d depends on a variable but is reported as a parameter" % i
                    if vy[i] and m.fullj is not None and not any(vx[j] and (i, j) in m.fullj for j in range(m.n)):
                        return "zero: dependent %d is reported as a variable, but it does not depend on one" % i
            return None
        if r in ("spjac", "sphess"):
            J = r == "spjac"
            rows = m.m if J else m.n
            full = {(i, j): (m.g(kk, i, j) if J else sum(q["w"][e] * m.h(kk, e, i, j) for e in range(m.m))) for i in range(rows) for j in range(m.n)}
            cust = m.cj if J else m.ch
            P = pat("P")
            e = m.pattern_error(P, cust, m.nzj if J else set().union(*m.nzh), r)
            if e: return e
            if "D" in L: got = dict(zip([(i, j) for i in range(rows) for j in range(m.n)], vec("D")))
            else:
                E = pat("E")
                if E != P: return "%s: elements %s returned with the values differ from the sparsity pattern %s" % (r, E, P)
                A = vec("A")
                if len(A) != len(E): return "%s: %d values for %d elements" % (r, len(A), len(E))
                got = dict(zip(E, A))
            for e in full:
                if e in P or not cust:
                    if not m.close(got.get(e, 0.0), full[e], kk, r): return "%s: element %s is %r, should be %r at %s" % (r, e, got.get(e), full[e], m.pts[kk][0])
                elif e in got and got[e] != 0: return "%s: element %s was not requested but is %r" % (r, e, got[e])
            return None
        if r in ("jsp", "hsp", "hspeq"):
            P, S, B = pat("P"), pat("S"), pat("B")
            if sorted(P) != S or S != B or len(set(P)) != len(P): return "%s: forms of the pattern differ: %s %s %s" % (r, P, S, B)
            if r == "jsp":
                m.fullj = None if m.cj else set(P)
                return m.pattern_error(P, m.cj, m.nzj, r)
            if r == "hsp": m.hp = set(P); return m.pattern_error(P, m.ch, set().union(*m.nzh), r)
            if m.ch: # restricted to the requested elements, if at all
                miss = (m.nzh[q["eq"] - 1] & set(m.ch)) - set(P)
            else: miss = m.nzh[q["eq"] - 1] - set(P)
            if miss: return "hspeq: elements %s of equation %d are missing from its pattern %s" % (sorted(miss), q["eq"] - 1, P)
            if m.hp is not None and not m.ch and set(P) - m.hp: return "hspeq: elements %s of equation %d are not in the pattern of the model" % (set(P) - m.hp, q["eq"] - 1)
            return None
        if r == "avail":
            o = m.opts; b = lambda k: bool(o[k])
            want = [b("zero"), b("jac"), b("hess"), b("for1"), b("for1"), b("rev1"), b("rev1"), b("rev2"), b("rev2"), b("spjac"), b("sphess"),
                    b("spjac") or b("for1") or b("rev1"), b("sphess") or b("rev2"), (b("sphess") and b("heq")) or b("rev2")]
            got = [bool(a) for a in vec("A")]
            return None if got == want else "availability of routines is %s, should be %s" % (got, want)
        if r == "config":
            got = dict(zip(FIELDS, vec("A")))
            got["guided"] *= 4
            if m.conf is None: m.conf = got
            want = {f: m.conf[f] if c["a"][f] == -1 else c["a"][f] for f in FIELDS}
            return None if got == want else "configuration of the thread pool reads %s, should be %s (guided in quarters)" % (got, want)
        raise KeyError(r)
    conf = None
    fullj = hp = None

    def pattern_error(m, P, cust, nz, r):
        if len(set(P)) != len(P): return "%s: repeated elements in %s" % (r, P)
        if cust: return None if P == cust else "%s: elements are %s, requested were %s" % (r, P, cust)
        miss = nz - set(P)
        return "%s: elements %s are not zero but missing from the pattern %s" % (r, sorted(miss), P) if miss else None


def coefs(s, n):
    d = [0] * n
    for a, b in s: d[a - 1] += b
    return d


def replay(c, ss, exe, prefix="m", only=None, npts=2):
    rng = random.Random(c.seed)
    ms = [Mod(s, "%s%d" % (prefix, k), rng, npts) for k, s in enumerate(ss)]
    ms = [m for m in ms if m.ok]
    out = os.path.join(c.scratch, "mod"); shutil.rmtree(out, ignore_errors=True)
    res, dead, other = run_sessions(exe, ms_as_sessions(ms), out, text=lambda s: s["m"].text(), timeout=800)
    st = c.cov.setdefault("calls", {})
    c.cov["models"] = c.cov.get("models", 0) + len(ms)
    for m in ms:
        rep = {"model": m.s, "elements": [m.cj, m.ch], "driver": m.text()}
        if m.id in dead: c.violation("model %s: %s" % (m.id, dead[m.id]), rep); continue
        for k, call in enumerate(m.s["calls"]):
            r = call["q"]["r"]
            if only and r not in only: continue
            u = m.uid(k)
            kind = r + ("_" + call["q"]["t"] if r == "tape" else "") + ("" if call["ok"] else "/refused")
            st[kind] = st.get(kind, 0) + 1
            msg = m.judge(k, call, res.get(u), other.get(u, []))
            if msg: c.violation("model %s call %d: %s (options %s)" % (m.id, k, msg, {a: b for a, b in m.opts.items() if a not in ("cjac", "chess")}), dict(rep, call=call)); break
            c.validated += 1
    shutil.rmtree(out, ignore_errors=True)
    return ms


def ms_as_sessions(ms): return [{"id": m.id, "m": m} for m in ms]
