"""C10: sparsity patterns in every form, and requests of particular elements, of compiled models."""
import models
from models import *

ASKED = ["jsp", "hsp", "hspeq", "spjac", "sphess", "sfor1", "srev1", "srev2", "avail"]


def run(c):
    exe = build("model", ["model/model.cpp"], libs=["-ldl"])
    k = c.pick(1, 8)
    ss = []
    for prof, NI, NN, ND, NQ, num in (("rat", 3, 14, 4, 10, 100), ("smooth", 4, 14, 3, 10, 60), ("dense", 4, 12, 3, 10, 120), ("dense", 6, 16, 4, 10, 40), ("rat", 6, 24, 6, 12, 60), ("cond", 3, 16, 4, 10, 60), ("rat", 1, 8, 5, 10, 20)):
        ss += c.generate_sim("Model", model_cfg(NI, NN, ND, prof, NQ, asked=ASKED), num=num * k, depth=NN * 20 + 50)
    models.replay(c, ss, exe)
    c.sample({k: ss[0][k] for k in ("nodes", "deps", "opts")} | {"calls": ss[0]["calls"][:4]})
