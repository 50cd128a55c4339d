"""C05: generated C code computes the recorded function under every option (one generation per recorder)."""
from graphs import *


def run(c):
    exe, runner = tools()
    n = c.pick(1, 8)
    ss = []
    for prof, NI, NN, num in (("rat", 3, 12, 160), ("full", 3, 16, 240), ("smooth", 2, 30, 80), ("cond", 2, 12, 80), ("rat", 1, 5, 80)):
        ss += c.generate_sim("Session", session_cfg(NI, NN, 5, prof, 1, 0, ["c"]), num=num * n, depth=NN * 8)
    check_sessions(c, ss, exe, runner)
    c.sample(ss[0])
