"""C18: histories of building and saving libraries with faults (spec/Build.tla, spec/BuildDesign.tla), performed by the
real library with a compiler, linker and archiver which fail as told."""
from vlib import *

DESIGN = ("CONSTANTS NF = %d Chunks = %d Cap = %d Guarded = %s\nSPECIFICATION Spec\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n")
CFG = "CONSTANTS NOps = %d Single = %s\nSPECIFICATION Spec\nINVARIANTS LibsWhole Emit\nCHECK_DEADLOCK FALSE\n"


def num(v): return ("%d" % v)


def offered(routines):
    r = set(routines) - {"loops"}
    if "for1" in r: r.add("spfor1")
    if "rev1" in r: r.add("sprev1")
    if "rev2" in r: r.add("sprev2")
    return r


ORDER = ["for0", "jac", "hess", "for1", "rev1", "rev2", "spfor1", "sprev1", "sprev2", "spjac", "sphess"]


def answers(content, values):
    """What a library with this content offers and answers."""
    s = []
    for m, rs in enumerate(content["models"], 1):
        r = offered(rs)
        s += ["model", "model%d" % m] + [k for k in ORDER if k in r]
        for p in values[m - 1]:
            if "for0" in r: s += [num(v) for v in p["y"]]
            if "jac" in r: s += ["J"] + [num(v) for row in p["jac"] for v in row]
            if "spjac" in r: s += ["S"] + [num(v) for row in p["jac"] for v in row]
    for k in range(1, content["custom"] + 1): s += ["custom", str(40 + k)]
    return " ".join(s)


def op_line(q):
    f = q.get("fault")
    if q["q"] == "model": return "model %d %s" % (q["m"], " ".join(sorted(q["routines"])))
    if q["q"] == "custom": return "custom %d %d" % (q["k"], q["big"])
    if q["q"] == "version": return "version %d" % q["kb"]
    h = "%s %s %d" % (q["q"], f["how"], f["pos"])
    if q["q"] == "bitcode": return h
    if q["q"] == "save": return h + " " + q["api"]
    return h + " %s %s %d %d %d %d" % (q["cc"], q["name"], q["ext"], q["load"], q["pic"], q["disk"])


def field(s, name):
    i = s.find(" " + name + "{")
    return None if i < 0 else s[i + len(name) + 2:s.index("}", i)].strip()


def judge(q, ans, values):
    w = ans.split(" ", 3)
    out = w[2]
    rest = " " + (ans.split(" ", 2)[2])
    want = q.get("out", "ok")
    if want == "fired":
        # something that is called back threw, if it was called that often
        want = "throw" if " fired" in rest else "ok"
    if want == "throw" and out != "throw": return "no failure is reported"
    if want == "ok" and out != "ok": return "fails without reason: %s" % rest[:300]
    for bad in ("zombie", "fds+", "left{", "objects remembered", "lost the file", "compile flags changed", "temporary folder left", "bitcode files", "unasked library", "unknown source", "source differs", "sources kept"):
        if " " + bad in rest: return "%s: %s" % (bad, rest[rest.index(" " + bad):][:300])
    if out == "ok" and q["q"] in ("dyn", "static", "save"):
        exp = answers(q["content"], values)
        if q["q"] != "save" and field(rest, "answers") != exp: return "the library is not what was asked for: has '%s', expected '%s'" % (field(rest, "answers"), exp)
        if q["q"] == "dyn" and q["load"] and field(rest, "loaded").split() != ["model%d" % (m + 1) for m in range(len(q["content"]["models"]))]:
            return "the loaded library has the models %s" % field(rest, "loaded")
        if (q["q"] == "save" or q["disk"]) and field(rest, "kept") != exp: return "the saved sources do not give the library: '%s', expected '%s'" % (field(rest, "kept"), exp)


def run(c):
    for nf, ch, cap in ((2, 2, 1), (3, 1, 1), (2, 3, 2)) if c.quick else ((2, 2, 1), (3, 1, 1), (2, 3, 2), (4, 3, 2), (3, 4, 2)):
        c.model_check("BuildDesign", DESIGN % (nf, ch, cap, "TRUE", "Survives AllOrNothing NothingLeft", "PROPERTY Ends\n"))
    exe = build("build", ["process/process.cpp"])
    fake = build("fakecc", ["process/fakecc.cpp"])
    hs = c.generate("Build", CFG % (0, "TRUE"))
    hs += c.generate_sim("Build", CFG % (7, "FALSE"), num=c.pick(250, 6000), depth=12)
    cache = os.path.join(c.scratch, "objects"); os.makedirs(cache)
    def drive(a):
        k, part = a
        d = os.path.join(c.scratch, "run%d" % k); os.makedirs(d)
        text = "".join("hist %d\n%s\nend\n" % (i, "\n".join(op_line(q) for q in h["log"])) for i, h in part)
        p = sh([exe, fake, cache, d], stdin=text, check=False, timeout=c.pick(700, 6000))
        if p.returncode: raise CheckError("driver ended with %d: %s" % (p.returncode, p.stderr[-300:]))
        res, cur = {}, None
        for l in p.stdout.splitlines():
            if l.startswith("H "): cur = int(l[2:]); res[cur] = {}
            elif l.startswith("R "): res[cur][int(l.split(" ", 2)[1])] = l
            elif l[0] in "DX": res[cur]["end"] = l
        return res
    todo = list(enumerate(hs))
    stat = {}
    for res in pmap(drive, [(k, todo[k::NCPU]) for k in range(NCPU)]):
        for i, ans in res.items():
            h = hs[i]; ok = True
            lines = [op_line(q) for q in h["log"]]
            for j, q in enumerate(h["log"], 1):
                if q["q"] in ("model", "custom"): continue
                key = "%s/%s" % (q["q"], q.get("fault", {}).get("how", "-"))
                stat[key] = stat.get(key, 0) + 1
                if j not in ans:
                    c.violation("the program %s in operation %d (%s)" % ("is killed by signal %s" % ans["end"][2:] if ans.get("end", "").startswith("D") else "ends: " + ans.get("end", "?"), j, lines[j - 1]),
                                {"history": lines[:j]}, key="died " + key)
                    ok = False; break
                v = judge(q, ans[j], h["values"])
                if v:
                    c.violation("operation %d (%s): %s" % (j, lines[j - 1], v), {"history": lines[:j], "answer": ans[j][:600]}, key=key + v[:20])
                    ok = False; break
            if ok: c.validated += 1
            c.sample({"history": lines})
    c.cov["operations by fault"] = stat
