"""C03: multi-threaded evaluation and configuration of the pool of threads."""
import models
from models import *

ASKED = ["spjac", "sphess", "sphess", "spjac", "jsp", "hsp", "srev2", "srev1", "zero"]


def run(c):
    exe = build("model", ["model/model.cpp"], libs=["-ldl"])
    k = c.pick(1, 8)
    ss = []
    for prof, NI, NN, ND, NQ, kinds, num in (("dense", 4, 14, 4, 12, '"pthreads"', 160), ("dense", 6, 16, 5, 12, '"pthreads"', 60), ("cond", 3, 14, 3, 14, '"pthreads"', 40),
                                             ("dense", 4, 14, 4, 12, '"openmp", "none"', 100), ("atom", 3, 12, 3, 12, '"pthreads", "openmp"', 100)):
        new = c.generate_sim("Threads", model_cfg(NI, NN, ND, prof, NQ, asked=ASKED, spec="TSpec", extra="CONSTANTS Kinds = {%s}\nINVARIANTS Answers ConfigKept" % kinds), num=num * k, depth=NN * 20 + 50)
        ss += new
    for s in ss: # the initial configuration
        s["calls"].insert(0, {"q": {"r": "config", "pt": 0, "form": 0, "ch": {}}, "ok": True, "a": {f: 0 if f == "verbose" else -1 for f in FIELDS}})
    models.replay(c, ss, exe)
    c.sample({k: ss[0][k] for k in ("nodes", "deps", "opts")} | {"calls": ss[0]["calls"][:4]})
