"""Child process: solve the jobs read from stdin in the given order and print the
plans. Used where another process is part of the property."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from rv import algs, core, env, inst

env.load()
spec = json.load(sys.stdin)
out = os.fdopen(os.dup(1), "w")
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
os.dup2(null, 2)
random.seed(spec["seed"])
np.random.seed(spec["seed"])
if spec.get("log"):
    import logging
    logging.basicConfig(level=spec["log"], stream=open(os.devnull, "w"))
for k in spec["order"]:
    j = spec["jobs"][k]
    D = np.array(j["D"], dtype=j["dtype"])
    I = inst.Inst([tuple(p) for p in j["pts"]], D, j["d"], j["C"], j["L"], j["st"], j["wtt"], ("child",))
    I.Dc = D
    o = algs.solve(j["a"], I, j["single"], j["min_k"])
    r = {"k": k, "ended": o.ended}
    if o.exc is not None:
        r["exc"] = type(o.exc).__name__
    else:
        r["sol"] = None if o.value is None else [int(x) for x in o.value]
    out.write(json.dumps(r) + "\n")
    out.flush()
