"""C06: repeated generation, interleaved recording, languages and resets."""
from graphs import *


def run(c):
    exe, runner = tools()
    n = c.pick(1, 8)
    ss = []
    L = ["c", "c", "c", "dot", "latex", "mathml"]
    for prof, NI, NN, NG, NR, langs, num in (("rat", 3, 12, 4, 2, ["c"], 80), ("full", 3, 16, 4, 1, ["c", "dot", "latex", "mathml"], 160),
                                             ("cond", 2, 12, 4, 2, ["c"], 80), ("rat", 2, 8, 6, 3, ["c", "dot"], 80)):
        ss += c.generate_sim("Session", session_cfg(NI, NN, 4, prof, NG, NR, langs), num=num * n, depth=NN * 20)
    check_sessions(c, ss, exe, runner)
    c.sample(ss[0])
