"""C16: searches of recorded graphs (spec/Paths.tla) answered by the real code handler."""
from vlib import *

CFG = "CONSTANTS NN = %d Small = %s NQ = %d\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"


def path(t):
    return tuple(tuple(int(a) for a in e.split(":")) for e in t.split())


def judge_paths(q, max, ans):
    got = [path(t) for t in ans.split(";")[:-1]]
    want = {tuple((n, i - 1 if k else 0) for k, (n, i) in enumerate(p)) for p in q["paths"]}
    if len(set(got)) != len(got): return "a path is reported more than once: %s" % (got,)
    if set(got) - want: return "not a path: %s" % (sorted(set(got) - want),)
    if len(got) != min(max, len(want)): return "%d paths are reported, there are %d (limit %d); missing: %s" % (len(got), len(want), max, sorted(want - set(got))[:3])


def judge_graph(g, q, ans, limited):
    parts = ans.split("|")
    bif = int(parts[0]); got = {}
    for e in parts[1].split(";")[:-1]:
        n, a, u = e.split("/")
        a = [int(x) for x in a.split()]
        if len(set(a)) != len(a): return "argument positions repeat: %s" % e
        got[int(n)] = (set(a), sorted(path(u)))
    want = {n: {i - 1 for i in l} for n, l in q["on"]}
    edges = {n: sorted((p, i) for p, l in want.items() for i in l if g[p - 1][i] == n) for n in want}
    if limited:
        for n, (a, u) in got.items():
            if n not in want or a - want[n] or set(u) - set(edges[n]): return "operation %d is not on a path from %d to %d: %s %s" % (n, q["r"], q["t"], a, u)
        if q["bif"] >= q["max"]: return None
    if {n: a for n, (a, u) in got.items()} != want: return "the graph has the operations %s, expected %s" % ({n: a for n, (a, u) in got.items()}, want)
    if {n: u for n, (a, u) in got.items()} != edges: return "the graph has the uses %s, expected %s" % ({n: u for n, (a, u) in got.items()}, edges)
    if bif != q["bif"]: return "%d bifurcations, expected %d" % (bif, q["bif"])
    if limited: return None
    # one path, or two which part at one bifurcation and meet no other
    at = int(parts[2]); ps = [path(t) for t in parts[3].split(";")[:-1]]
    if not want: return "paths without a connection" if ps else None
    if len(ps) != (2 if q["bif"] else 1): return "%d paths for %d bifurcations" % (len(ps), q["bif"])
    for p in ps:
        if p[0][0] != q["r"] or p[-1] != (q["t"], -1) or any(i not in want[n] or g[n - 1][i] != m for (n, i), (m, _) in zip(p, p[1:])):
            return "not a path: %s" % (p,)
    if len(ps) == 2:
        a, b = ps
        if not 0 <= at < min(len(a), len(b)) or a[:at] != b[:at] or a[at][0] != b[at][0] or a[at][1] == b[at][1]: return "the paths do not part at %d: %s" % (at, ps)
        if any(len(want[n]) > 1 for p in ps for n, _ in p[at + 1:]): return "another bifurcation below the one at %d: %s" % (at, ps)
    elif at != -1: return "bifurcation at %d of a single path" % at


def run(c):
    c.model_check("Paths", CFG % (4, "TRUE", 0, "Agree"))
    exe = build("paths", ["paths/paths.cpp"])
    hs = []
    for n in (3, c.pick(4, 5)): hs += c.generate("Paths", CFG % (n, "TRUE", 0, "Emit"))
    for n, nq, num in ((10, 12, 300), (16, 16, 200)):
        hs += c.generate_sim("Paths", CFG % (n, "FALSE", nq, "Emit"), num=c.pick(num, num * 15), depth=n + 8 * nq)
    todo = []
    for i, h in enumerate(hs):
        t, n, qs = ["hist %d" % i], 0, []
        for q in h["log"]:
            for a in h["g"][n:q["n"]]: t.append("node " + " ".join(map(str, a)))
            n = max(n, q["n"])
            if q["q"] == "all":
                for k, m in (("paths", 1000), ("paths", 2), ("graph", 0), ("limited", 1)): qs.append(dict(q, q=k, max=m))
            else: qs.append(q)
            for x in (qs[-4:] if q["q"] == "all" else qs[-1:]): t.append("%s %d %d %d" % (x["q"], x["r"], x["t"], x["max"]))
        todo.append((i, h, t, qs))
    stat = {}
    def drive(part):
        p = sh([exe], stdin="".join("\n".join(t) + "\n" for _, _, t, _ in part), check=False, timeout=600)
        ans, last = {}, None
        for l in p.stdout.splitlines():
            w = l.split(" ", 4)
            if w[0] == "H": last = int(w[1])
            elif w[0] == "Q": ans[int(w[1]), int(w[2])] = l.split(" | ", 1)[1] if " | " in l else ""
        return p.returncode, ans, last
    parts = [todo[k::NCPU] for k in range(NCPU)]
    for part, (rc, ans, last) in zip(parts, pmap(drive, parts)):
        if rc: c.violation("the program ends (status %d)" % rc, {"history": next((t for i, _, t, _ in part if i == last), None)})
        for i, h, t, qs in part:
            if rc and i >= (last or 0): continue
            for k, q in enumerate(qs):
                a = ans.get((i, k), "EXC no answer")
                stat[q["q"]] = stat.get(q["q"], 0) + 1
                if a.startswith("EXC"): w = a
                elif q["q"] == "gen": w = None
                elif q["q"] == "paths": w = judge_paths(q, q["max"], a)
                else: w = judge_graph(h["g"], q, a, q["q"] == "limited")
                c.validated += 1
                if w: c.violation("%s from %d to %d (limit %d): %s" % (q["q"], q["r"], q["t"], q["max"], w), {"graph": h["g"], "query": {k: q[k] for k in ("q", "n", "r", "t", "max")}, "wrong": w, "history": t})
    c.cov.update(recordings=len(hs), searches=stat)
    c.sample({"graph": hs[-1]["g"], "queries": todo[-1][2][:30]})
