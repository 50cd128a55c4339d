"""C12: detected index patterns reproduce every index, and so does the C text printed for them."""
import ctypes, json, os, random, subprocess
from vlib import *

DETECT = "CONSTANTS XS = %d\nYS = %d\nMaxSec = 3\nSPECIFICATION DSpec\nINVARIANTS Covered Ordered FirstCovers\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
GEN1 = 'CONSTANTS XMax = %d\nYMax = %d\nLen1 = %d\nShape = "%s"\nSPECIFICATION GSpec\nINVARIANT GEmit\nCHECK_DEADLOCK FALSE\n'
GEN2 = 'CONSTANTS NX = %d\nNY = %d\nZMax = %d\nShape2 = "%s"\nSPECIFICATION GSpec\nINVARIANT GEmit\nCHECK_DEADLOCK FALSE\n'
CHECKCFG = "CONSTANTS XS = 1\nYS = 1\nMaxSec = 3\nSPECIFICATION CSpec\nINVARIANT Contract\nCHECK_DEADLOCK FALSE\n"


def uniq(ms):
    seen, out = set(), []
    for m in ms:
        k = json.dumps(m)
        if k not in seen: seen.add(k); out.append(m)
    return out


def flat(m): return " ".join(str(v) for p in m for v in p)


def contract(c, obs, workers=NCPU):
    """TLC decides which observed patterns break the contract; returns their positions."""
    def part(k):
        o = obs[k::workers]
        if not o: return [], None
        f = os.path.join(c.scratch, "pat%d.ndjson" % k)
        open(f, "w").write("\n".join(json.dumps(x) for x in o) + "\n")
        r = tlc("IndexCheck", CHECKCFG, env={"PATTERNS": f}, workers=1, heap="2g", timeout=800)
        if not r.ok: raise CheckError("IndexCheck: " + r.out[-3000:])
        return [k + workers * (int(x) - 1) for x in re.findall(r'<<"BAD", (\d+)>>', r.out)], r
    bad = []
    for b, r in pmap(part, range(workers)):
        bad += b
        if r: c.count(r)
    return sorted(set(bad))


def run(c):
    exe = build("index", ["index/index.cpp"])
    c.model_check("IndexPattern", DETECT % (c.pick(6, 6), c.pick(3, 4)))
    # one index: every map of a few points, and long structured ones
    one = c.generate("IndexGen", GEN1 % (c.pick(4, 5), 3, c.pick(4, 5), "all"), workers=1)
    n = c.pick(600, 12000)
    for L, X, Y in ((10, 30, 30), (20, 60, 60), (40, 90, 90)):
        one += c.generate_sim("IndexGen", GEN1 % (X, Y, L, "runs"), num=n, depth=L + 3)
    one = uniq(one)
    # two indexes
    two = c.generate("IndexGen2", GEN2 % (2, 3, c.pick(1, 2), "all"), workers=1)
    for NX, NY in ((3, 3), (5, 4), (2, 8), (8, 2), (7, 7)):
        two += c.generate_sim("IndexGen2", GEN2 % (NX, NY, 40, "sums"), num=n, depth=NX * NY + 4)
    two = uniq(two)
    rnd = random.Random(c.seed)
    cases = []
    for m in one:
        cases.append(("1", "map", m, None))
        if all(p[0] == i for i, p in enumerate(m)): cases.append(("1", "vec", m, None))
    for m in rnd.sample(one, min(len(one), c.pick(2500, 20000))):
        k = rnd.choice([0, 1, 1, 2, 5])
        m2 = [[x, y + k] for x, y in m]
        if rnd.random() < 0.4: m2[rnd.randrange(len(m2))][1] += rnd.choice([1, 2])
        if rnd.random() < 0.2: m2[-1][0] += 1
        cases.append(("s", k, m, m2))
    for m in two: cases.append(("2", None, m, None))
    lines = []
    for i, (kind, x, m, m2) in enumerate(cases):
        if kind == "1": lines.append("1 %d %s %d %s" % (i, x, len(m), flat(m)))
        elif kind == "2": lines.append("2 %d %d %s" % (i, len(m), flat(m)))
        else: lines.append("s %d map %d %d %s %s" % (i, x, len(m), flat(m), flat(m2)))

    def drive(k):
        p = subprocess.run([exe], input="\n".join(lines[k::NCPU]) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        out = [l.split("\t") for l in p.stdout.splitlines()]
        src = "\n".join(l[-1].replace("\1", "\n") for l in out if l[-1].startswith("unsigned long"))
        so = os.path.join(c.scratch, "x%d.so" % k)
        open(so + ".c", "w").write(src)
        g = subprocess.run(["gcc", "-O0", "-w", "-shared", "-fPIC", so + ".c", "-o", so], stderr=subprocess.PIPE, text=True)
        return p, out, so, g
    obs, where = [], []
    for k, (p, out, so, g) in enumerate(pmap(drive, range(NCPU))):
        done = {int(o[0]) for o in out}
        if p.returncode != 0:
            todo = [i for i in range(k, len(cases), NCPU) if i not in done and cases[i][0] != "s"]
            i = todo[0] if todo else k
            c.violation("detecting a pattern ends the program (rc %d) for %s" % (p.returncode, cases[i]), {"case": cases[i], "stderr": p.stderr[-2000:]}, key="crash")
        if g.returncode != 0:
            c.violation("C text of index patterns does not compile: " + g.stderr[:300], {"stderr": g.stderr[:3000]}, key="cc")
            continue
        lib = ctypes.CDLL(so)
        for o in out:
            i = int(o[0]); kind, x, m, m2 = cases[i]
            if o[1] == "notconst":
                c.violation("a pattern that is not constant is said to be constant: %s" % m, {"map": m}); continue
            if o[1] == "shift": obs.append({"k": "shift", "q": json.loads(o[2]), "p": json.loads(o[3]), "d": x, "m": m})
            elif o[1] == "block": obs.append({"k": "block", "e": json.loads(o[2]), "p": json.loads(o[3]), "d": x, "m": m})
            else: obs.append({"k": o[1], "p": json.loads(o[2]), "m": m})
            where.append(i)
            if o[1] == "shift": continue
            f = getattr(lib, "f_%d" % i); f.restype = ctypes.c_long; f.argtypes = [ctypes.c_ulong] * 2
            if o[1] == "1": bad = [(q, f(q[0], 0)) for q in m if f(q[0], 0) != q[1]]
            elif o[1] == "2": bad = [(q, f(q[0], q[1])) for q in m if f(q[0], q[1]) != q[2]]
            else: bad = [(q, f(q[0], y)) for q in m for y in range(5) if f(q[0], y) != q[1] - x + y]
            if bad:
                c.violation("C text of the pattern of %s gives %s at %s" % (m, bad[0][1], bad[0][0]), {"case": cases[i], "pattern": o[2], "text": o[-1].replace("\1", "\n"), "wrong": bad})
    for b in contract(c, obs):
        c.violation("pattern does not reproduce its map: %s" % json.dumps(obs[b])[:300], {"observed": obs[b], "case": cases[where[b]]})
    c.validated += len(obs)
    kinds = {}
    for o in obs: kinds[o["k"] + "/" + (o.get("p") or o.get("e"))["t"]] = kinds.get(o["k"] + "/" + (o.get("p") or o.get("e"))["t"], 0) + 1
    c.cov.update(maps_one_index=len(one), maps_two_indexes=len(two), patterns=kinds,
                 rule="a case counts once per distinct map and form; the pattern is judged by TLC against IndexPattern, its C text by running it")
    c.sample(obs[0]); c.sample(obs[-1])
