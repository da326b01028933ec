#!/usr/bin/env python3
"""Nothing is compiled: make sure the library of the working tree imports and the harness can watch it."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if os.path.exists("/opt/venv/bin/python") and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.path.insert(0, V); sys.dont_write_bytecode = True
from rv import env, core
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
env.load()
from verypy.util import objf
import numpy as np
o = core.call(objf, [0, 1, 0], np.array([[0, 2], [2, 0]]))
assert o.ok and o.value == 4 and o.steps > 0, (o.why(), o.steps)
print("ready: verypy from", env.REPO, "python", sys.version.split()[0])
