"""Sessions of the recorder: generation from spec/Session.tla, replay on the real library, comparison with the oracle."""
import os, json, random, re, subprocess, shutil
import vlib
from vlib import *
import oracle
from oracle import Reject


def session_cfg(NI, NN, ND, profile, NG, NR, langs, dorder=0):
    return ("SPECIFICATION SSpec\nCONSTANTS NI = %d DOrder = %d NN = %d ND = %d Profile = \"%s\" NG = %d NR = %d Langs = {%s}\n"
            "INVARIANT SEmit\nCHECK_DEADLOCK FALSE\n" % (NI, dorder, NN, ND, profile, NG, NR, ",".join('"%s"' % l for l in langs)))


def node_line(nd):
    if nd[0] == "const": return "const %d %d" % tuple(nd[1])
    return " ".join(str(a) for a in nd)


def gen_line(g):
    o = g["opts"]
    return "gen %s %d %d %s %s %d %d %d %d %d %d %s" % (g["uid"], g["upto"], len(g["deps"]), " ".join(map(str, g["deps"])), o["lang"], o["maxOps"],
                                                    o["maxAsg"], o["zeroDep"], o["reuse"], o["ignoreZero"], o["plusEq"], o["naming"])


def sane_options(o):
    """combinations that the library documents or asserts against, or whose meaning needs zeroed dependents"""
    if o["naming"] == "custom": o["zeroDep"] = False; o["maxAsg"] = 0
    if o["naming"] == "scalar": o["maxAsg"] = 0
    if o["plusEq"] and o["naming"] == "custom": o["plusEq"] = False
    return o


def session_text(s):
    t = ["session %s %s %d %d" % (s["id"], s["route"], s["form"], s["n"])]
    for k, seg in enumerate(s["segs"]):
        if k: t.append("reset")
        t.append("pt " + " ".join(repr(x) for x in oracle.exact_point(seg["vals"], seg["nodes"])))
        t += ["node " + node_line(nd) for nd in seg["nodes"]]
        t += [gen_line(g) for g in seg["gens"]]
        t.append("endseg")
    t.append("end")
    return "\n".join(t) + "\n"


def run_sessions(exe, sessions, outdir, text=session_text, args=(), timeout=600):
    """-> {uid: ("OK"|"EXC", msg)}, {session id: reason} for sessions the library did not survive; lines of any other kind in 'other'"""
    os.makedirs(outdir, exist_ok=True)
    res, dead, other = {}, {}, {}
    def work(part):
        todo = list(part)
        while todo:
            p = None
            try:
                p = sh([exe, outdir, *args], stdin="".join(text(s) for s in todo), check=False, timeout=timeout)
                out, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired as e:
                out, rc = (e.stdout or b"").decode(errors="replace"), "timeout"
            done = set()
            for l in out.splitlines():
                w = l.split(" ", 2)
                if w[0] == "END": done.add(w[1])
                elif w[0] in ("OK", "EXC"): res[w[1]] = (w[0], w[2] if len(w) > 2 else "")
                elif w[0] == "REC": dead[w[1]] = "recording failed: " + (w[2] if len(w) > 2 else "")
                elif len(w) > 1: other.setdefault(w[1], []).append((w[0], w[2] if len(w) > 2 else ""))
            rest = [s for s in todo if s["id"] not in done]
            if rest and len(done) < len(todo):
                dead[rest[0]["id"]] = "the library died (%s) %s" % (rc, (p.stderr if p else "")[-500:])
                rest = rest[1:]
            todo = rest
    pmap(work, [sessions[i::NCPU] for i in range(NCPU)])
    return res, dead, other


CC = ["gcc", "-O0", "-w", "-fPIC", "-shared", "-ftrivial-auto-var-init=pattern", "-ffp-contract=off"]


def compile_dir(d, libs=("-lm",)):
    """compile all C files of d into d/lib.so; returns an error text or None"""
    fs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))
    p = sh(CC + fs + ["-o", os.path.join(d, "lib.so"), *libs], check=False, timeout=120)
    return None if p.returncode == 0 else p.stderr[:1500]


def expected(seg, g, x, prefill, exactx):
    """values the generated function must leave in y, [(value, error)], or None for dependents without a defined value"""
    vs = oracle.evaluate(seg["nodes"], x, 0, exactx, upto=g["upto"])
    out = []
    for d in g["deps"]:
        out.append((vs[d - 1].v, vs[d - 1].e))
    return out, vs


def prefill_of(o):
    # dependents that are identically zero may be left alone only when asked for, and "+=" adds to what is there
    return 0.0 if (o["ignoreZero"] or o["plusEq"]) and not o["zeroDep"] else 1e30


def check_sessions(c, sessions, exe, runner, npts=2):
    """replay, compile, run and compare the C outputs of the sessions"""
    for k, s in enumerate(sessions):
        s["id"] = "s%d" % k
        for j, seg in enumerate(s["segs"]):
            for i, g in enumerate(seg["gens"]):
                g["uid"] = "%d_%d_%d" % (k, j, i); sane_options(g["opts"])
    out = os.path.join(c.scratch, "out%d" % random.randrange(10**9))
    res, dead, _ = run_sessions(exe, sessions, out)
    jobs, calls, want = [], [], {}
    rng = random.Random(c.seed)
    stat = {"functions": 0, "evaluations": 0, "exact points": 0, "sessions": len(sessions)}
    byuid = {}
    for s in sessions:
        if s["id"] in dead:
            c.violation("session %s: %s" % (s["id"], dead[s["id"]]), {"session": s, "driver": session_text(s)}); continue
        for seg in s["segs"]:
            x0 = oracle.exact_point(seg["vals"], seg["nodes"])
            pts = []
            try:
                vs = oracle.evaluate(seg["nodes"], x0, 0, True)
                oracle.check_exact(seg["nodes"], seg["vals"], vs); pts.append((x0, vs)); stat["exact points"] += 1
            except Reject: pass
            pts += oracle.points(seg["nodes"], x0, rng, npts)
            for g in seg["gens"]:
                if g["opts"]["lang"] != "c": continue
                r = res.get(g["uid"])
                byuid[g["uid"]] = (s, seg, g)
                if r is None or r[0] != "OK":
                    c.violation("generation %s refused: %s" % (g["uid"], r), {"session": s, "gen": g, "driver": session_text(s)}); continue
                jobs.append(g["uid"])
                for k, (x, vs) in enumerate(pts):
                    u = "%s@%d" % (g["uid"], k)
                    want[u] = (g, x, [(vs[d - 1].v, vs[d - 1].e) for d in g["deps"]], vs)
    errs = dict(zip(jobs, pmap(lambda u: compile_dir(os.path.join(out, u)), jobs)))
    for u, e in errs.items():
        stat["functions"] += 1
        if e:
            s, seg, g = byuid[u]
            c.violation("generated source %s does not compile: %s" % (u, e), {"session": s, "gen": g, "driver": session_text(s)})
    for u, (g, x, ys, vs) in want.items():
        if errs.get(g["uid"]): continue
        calls.append("%s %s f_%s %d %r %d %s" % (u, os.path.join(out, g["uid"], "lib.so"), g["uid"], len(ys), prefill_of(g["opts"]), len(x),
                                                 " ".join(repr(float(a)) for a in x)))
    got = {}
    def runpart(part):
        p = sh([runner], stdin="\n".join(part) + "\n", check=False, timeout=600)
        for l in p.stdout.splitlines():
            w = l.split()
            got[w[0]] = w[1:]
    pmap(runpart, [calls[i::NCPU] for i in range(NCPU)])
    bad = set()
    for u, (g, x, ys, vs) in want.items():
        if errs.get(g["uid"]) or g["uid"] in bad: continue
        r = got.get(u)
        stat["evaluations"] += 1
        msg = None
        if r is None or (r and r[0] in ("CRASH", "DL", "BOUNDS")): msg = "calling the generated function: %s" % (r,)
        else:
            for i, ((v, e), y) in enumerate(zip(ys, r)):
                if not oracle.close(float(y), v, e, max(abs(n.v) for n in vs)):
                    msg = "dependent %d of %s is %s, the recording gives %r (options %s, x = %s)" % (i, g["uid"], y, v, g["opts"], x); break
        if msg:
            s, seg, _ = byuid[g["uid"]]
            bad.add(g["uid"])
            c.violation(msg, {"session": s, "gen": g, "x": x, "driver": session_text(s),
                              "source": {f: open(os.path.join(out, g["uid"], f)).read()[:20000] for f in os.listdir(os.path.join(out, g["uid"])) if f.endswith(".c")}})
        else: c.validated += 1
    for k, v in stat.items(): c.cov[k] = c.cov.get(k, 0) + v
    shutil.rmtree(out, ignore_errors=True)
    return res


def tools():
    return build("graphgen", ["graph/gen.cpp"]), build("graphrun", ["graph/run.cpp"])
