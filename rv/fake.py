"""Stand-ins for the external TSP solvers: an executable that reads what the
library wrote for it and answers with some tour, as LKH and ACOTSP would."""
import atexit
import os
import shutil
import stat
import sys
import tempfile

SRC = r'''
import random, sys

def read(path):
    dim, rows, on = 0, [], False
    for line in open(path):
        w = line.replace(":", " : ").split()
        if not w: continue
        if w[0] == "DIMENSION": dim = int(w[-1])
        elif w[0] == "EDGE_WEIGHT_SECTION": on = True
        elif w[0] == "EOF": on = False
        elif on: rows += [float(x) for x in w]
    M = [[0.0] * dim for _ in range(dim)]
    it = iter(rows)
    for i in range(dim):
        for j in range(i + 1, dim):
            M[i][j] = M[j][i] = next(it)
    return M

def tour(M):
    n = len(M)
    rnd = random.Random(repr(M))
    t = list(range(n)); rnd.shuffle(t)
    best = True
    while best:
        best = False
        for i in range(n - 1):
            for j in range(i + 1, n):
                a, b, c, d = t[i], t[(i + 1) % n], t[j], t[(j + 1) % n]
                if M[a][c] + M[b][d] < M[a][b] + M[c][d] - 1e-9:
                    t[i + 1:j + 1] = t[i + 1:j + 1][::-1]; best = True
    return t, sum(M[t[i - 1]][t[i]] for i in range(n))

args = sys.argv[1:]
if "-i" in args:
    M = read(args[args.index("-i") + 1])
    t, f = tour(M)
    print("try 0, Best %d, found at iteration 1" % f)
    print("best solution so far is " + " ".join(str(x) for x in t))
else:
    p = dict((l.split("=")[0].strip(), l.split("=")[1].strip()) for l in open(args[0]) if "=" in l)
    t, f = tour(read(p["PROBLEM_FILE"]))
    with open(p["OUTPUT_TOUR_FILE"], "w") as o:
        o.write("NAME : x\nCOMMENT : Length = %d\nTYPE : TOUR\nDIMENSION : %d\nTOUR_SECTION\n" % (f, len(t)))
        o.write("".join("%d\n" % (x + 1) for x in t) + "-1\nEOF\n")
'''


def install():
    """A scratch home with both executables; must run before verypy is imported."""
    home = tempfile.mkdtemp(prefix="rv-home-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(home, ignore_errors=True))
    for rel in ("Research/TSP/LKH-2.0.9/lkh", "Research/TSP/ACOTSP-1.03-ls/acotsp"):
        p = os.path.join(home, rel)
        os.makedirs(os.path.dirname(p))
        with open(p, "w") as f:
            f.write("#!%s -SE\n" % os.path.realpath(sys.executable) + SRC)
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
    os.environ["HOME"] = home
    return home
