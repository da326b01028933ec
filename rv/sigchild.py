"""Child process of the V02 check: solve, send itself a SIGINT, report."""
import json
import os
import signal
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from rv import algs, env

signal.signal(signal.SIGINT, signal.default_int_handler)
env.load()
out = os.fdopen(os.dup(1), "w")
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
os.dup2(null, 2)


def plain(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x if isinstance(x, (int, float, str, bool, type(None))) else repr(x)


for i, j in enumerate(json.load(sys.stdin)):
    f = algs.get(j["a"])
    D = np.array(j["D"])
    if j["int"]:
        D = D.astype(int)
    data = [tuple(p) for p in j["pts"]], D, list(j["d"])
    going = [True]
    res = None

    def send():
        if going[0]:
            os.kill(os.getpid(), signal.SIGINT)
    t = threading.Timer(j["delay"], send)
    try:
        t.start()
        try:
            sol = f(data[0], data[1], data[2], j["C"], j["L"], j["st"], j["wtt"], j["single"], j["min_k"])
            res = {"what": "ok", "sol": plain(sol)}
        except BaseException as e:
            res = {"what": "exc", "type": type(e).__name__, "args": plain(e.args)}
        going[0] = False
        t.join()
        for _ in range(100):        # a point where a late signal can arrive
            pass
    except KeyboardInterrupt:
        res = res or {"what": "late"}
    signal.signal(signal.SIGINT, signal.default_int_handler)
    going[0] = False
    t.join()
    res["i"] = i
    res["same"] = (data[0] == [tuple(p) for p in j["pts"]] and data[2] == list(j["d"])
                   and np.array_equal(data[1], np.array(j["D"])))
    out.write(json.dumps(res) + "\n")
    out.flush()
