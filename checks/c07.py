"""C07: nested conditional expressions in generated code (all comparisons, equality, shared sub-expressions, every option)."""
from graphs import *
import c19


def run(c):
    exe, runner = tools()
    n = c.pick(1, 8)
    ss = []
    for NI, NN, NG, NR, num in ((3, 14, 1, 0, 240), (2, 24, 1, 0, 160), (2, 10, 1, 0, 240), (3, 40, 1, 0, 40), (3, 16, 3, 1, 80)):
        ss += c.generate_sim("Session", session_cfg(NI, NN, 4, "nest", NG, NR, ["c"]), num=num * n, depth=NN * 20)
    ss += c.generate_sim("Session", session_cfg(2, 10, 4, "cond", 1, 0, ["c"]), num=160 * n, depth=200)
    check_sessions(c, ss, exe, runner, npts=c.pick(5, 8))
    fs = c.generate_sim("Session", session_cfg(3, 14, 4, "nest", 2, 0, ["dot", "latex", "mathml"]), num=80 * n, depth=200)
    c19.check_formats(c, fs, exe, npts=5)
    taken = {}
    for s in ss:
        for seg in s["segs"]:
            for nd in seg["nodes"]:
                if nd[0] == "cond": taken[nd[1]] = taken.get(nd[1], 0) + 1
    c.cov["conditionals recorded"] = taken
    c.sample(ss[0])
