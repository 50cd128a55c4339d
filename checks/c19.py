"""C19: DOT, LaTeX and MathML outputs are read back and evaluated."""
from graphs import *
import readers


def run(c):
    exe, _ = tools()
    n = c.pick(1, 10)
    ss = []
    for prof, NI, NN, NG, NR, num in (("rat", 3, 12, 3, 0, 240), ("full", 3, 16, 3, 0, 400), ("smooth", 2, 30, 2, 0, 160), ("cond", 2, 12, 3, 1, 160), ("full", 3, 10, 4, 2, 160)):
        ss += c.generate_sim("Session", session_cfg(NI, NN, 5, prof, NG, NR, ["dot", "latex", "mathml"]), num=num * n, depth=NN * 16)
    check_formats(c, ss, exe)
    c.sample(ss[0])


def check_formats(c, sessions, exe, npts=3):
    for k, s in enumerate(sessions):
        s["id"] = "s%d" % k
        for j, seg in enumerate(s["segs"]):
            for i, g in enumerate(seg["gens"]):
                g["uid"] = "%d_%d_%d" % (k, j, i); sane_options(g["opts"])
    out = os.path.join(c.scratch, "out")
    res, dead, _ = run_sessions(exe, sessions, out)
    rng = random.Random(c.seed)
    st = {"dot": 0, "latex": 0, "mathml": 0, "evaluations": 0}
    for s in sessions:
        if s["id"] in dead:
            c.violation("session %s: %s" % (s["id"], dead[s["id"]]), {"session": s, "driver": session_text(s)}); continue
        for seg in s["segs"]:
            pts = []
            x0 = oracle.exact_point(seg["vals"], seg["nodes"])
            try:
                vs = oracle.evaluate(seg["nodes"], x0, 0, True)
                oracle.check_exact(seg["nodes"], seg["vals"], vs); pts.append((x0, vs))
            except Reject: pass
            pts += oracle.points(seg["nodes"], x0, rng, npts)
            for g in seg["gens"]:
                lang = g["opts"]["lang"]
                if lang not in readers.READ: continue
                r = res.get(g["uid"])
                rep = {"session": s, "gen": g, "driver": session_text(s)}
                if r is None or r[0] != "OK": c.violation("generation %s refused: %s" % (g["uid"], r), rep); continue
                text = open(os.path.join(out, g["uid"], "out." + lang)).read()
                rep["output"] = text
                st[lang] += 1
                try:
                    f = readers.READ[lang](text)
                    for x, vs in pts:
                        y = f(x)
                        st["evaluations"] += 1
                        for i, d in enumerate(g["deps"]):
                            w = vs[d - 1]
                            if i not in y:
                                raise readers.ReadError("dependent %d is missing" % i)
                            if not oracle.close(y[i], w.v, w.e + 1e-14 * abs(w.v), max(abs(n.v) for n in vs)):
                                raise readers.ReadError("dependent %d reads as %r, the recording gives %r at %s" % (i, y[i], w.v, x))
                        extra = [i for i in y if i >= len(g["deps"])]
                        if extra: raise readers.ReadError("dependents %s were not asked for" % extra)
                    c.validated += 1
                except (readers.ReadError, ArithmeticError, ValueError, IndexError) as e:
                    c.violation("%s output %s: %s %s" % (lang, g["uid"], type(e).__name__, e), rep)
    for k, v in st.items(): c.cov[k] = c.cov.get(k, 0) + v
    shutil.rmtree(out, ignore_errors=True)
