"""C09: histories of calls of every evaluation routine of compiled models."""
import models
from models import *


def run(c):
    exe = build("model", ["model/model.cpp"], libs=["-ldl"])
    k = c.pick(1, 8)
    ss = []
    for prof, NI, NN, ND, NQ, num in (("smooth", 3, 12, 3, 14, 120), ("dense", 4, 12, 3, 14, 120), ("rat", 2, 16, 4, 14, 60), ("dense", 5, 18, 4, 14, 40), ("smooth", 4, 22, 4, 16, 60), ("cond", 3, 14, 3, 12, 60), ("full", 1, 10, 2, 12, 30)):
        new = c.generate_sim("Model", model_cfg(NI, NN, ND, prof, NQ), num=num * k, depth=NN * 20 + 50)
        ss += new
    models.replay(c, ss, exe)
    c.sample({k: ss[0][k] for k in ("nodes", "deps", "opts")} | {"calls": ss[0]["calls"][:4]})
