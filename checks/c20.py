"""C20: compiled models used as functions in other recordings (spec/Tape.tla)."""
import models
from models import *


def run(c):
    exe = build("model", ["model/model.cpp"], libs=["-ldl"])
    k = c.pick(1, 8)
    ss = []
    for prof, NI, NN, ND, NQ, num in (("smooth", 3, 12, 3, 12, 120), ("dense", 4, 14, 4, 12, 100), ("rat", 2, 14, 3, 12, 60), ("atom", 3, 12, 3, 12, 60), ("cond", 3, 12, 3, 10, 40)):
        ss += c.generate_sim("Tape", model_cfg(NI, NN, ND, prof, NQ, custom=False, spec="PSpec"), num=num * k, depth=NN * 20 + 50)
    models.replay(c, ss, exe)
    c.sample({k: ss[0][k] for k in ("nodes", "deps", "opts")} | {"calls": ss[0]["calls"][:4]})
