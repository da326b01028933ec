#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(VENV):
    os.execv(VENV, [VENV] + sys.argv)
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                      OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import argparse
import json

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier")
ap.add_argument("--seed", type=int)
ap.add_argument("--replay")
ap.add_argument("--chunk", type=int, action="append")
a = ap.parse_args()
from rv import core
only = a.chunk
if a.replay:
    r = json.load(open(a.replay))
    a.tier, a.seed, only = r["tier"], r["seed"], [r["chunk"]]
sys.exit(core.main(a.property.upper(), a.tier, a.seed, only))
