"""C08: compiled models of recordings that call user-supplied functions, and models used as user-supplied functions."""
import models
from models import *


def run(c):
    exe = build("model", ["model/model.cpp"], libs=["-ldl"])
    k = c.pick(1, 8)
    ss = []
    for prof, NI, NN, ND, NQ, num in (("atom", 3, 10, 3, 12, 160), ("atom", 2, 16, 3, 12, 120), ("atom", 3, 24, 4, 12, 60)):
        ss += c.generate_sim("Model", model_cfg(NI, NN, ND, prof, NQ), num=num * k, depth=NN * 20 + 50)
    models.replay(c, ss, exe)
    c.sample({k: ss[0][k] for k in ("nodes", "deps", "opts")} | {"calls": ss[0]["calls"][:4]})
