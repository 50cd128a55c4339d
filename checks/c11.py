"""C11: models with repeated equations, generated with and without declared groups."""
import models
from models import *


def cfg(NI, NN, NQ, it, loops, ops, wild, custom=True):
    return model_cfg(NI, NN, 1, "rat", NQ, custom, spec="LSpec", extra="CONSTANTS MaxIter = %d MaxLoops = %d Ops = \"%s\" Wild = %s" % (it, loops, ops, "TRUE" if wild else "FALSE")).replace("MEmit", "LEmit")


def run(c):
    exe = build("model", ["model/model.cpp"], libs=["-ldl"])
    k = c.pick(1, 8)
    ss = []
    for NI, NN, NQ, it, loops, ops, wild, num in ((6, 60, 10, 5, 1, "smooth", False, 160), (5, 60, 10, 4, 2, "smooth", True, 80), (5, 70, 10, 4, 1, "atom", False, 120), (4, 70, 10, 3, 2, "atom", True, 60)):
        ss += c.generate_sim("Loops", cfg(NI, NN, NQ, it, loops, ops, wild), num=num * k, depth=100)
    ss = [s for s in ss if len(s["deps"]) <= 30]
    models.replay(c, ss, exe)
    c.sample({k: ss[0][k] for k in ("nodes", "deps", "opts", "rel")} | {"calls": ss[0]["calls"][:4]})
