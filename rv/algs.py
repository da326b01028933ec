"""The heuristics under test, through the library's own algorithm list."""
from . import core, env

ALL = ("ps", "gpl", "ss", "gps", "ims", "ps2o", "si", "mj", "pi", "mbsa", "cmt", "sn", "pn", "ty",
       "swp", "wh", "gm", "rfcs", "gap", "ptl", "lr3o")
NO_MIN_K = ("sn", "pn", "ty", "lr3o")      # raise NotImplementedError by design
_cache = {}


def get(abbr):
    if abbr not in _cache:
        from verypy import get_algorithms
        with env.quiet():
            (row,) = get_algorithms(abbr)
        _cache[abbr] = row[3]
    return _cache[abbr]


def solve(abbr, I, single, min_k, limit=None, pts=None, D=None, d=None):
    """Call a heuristic the way the command line does."""
    f = get(abbr)
    pts = [tuple(p) for p in I.pts] if pts is None else pts
    D = I.Dc.copy() if D is None else D
    d = (list(I.d) if I.d is not None else None) if d is None else d
    return core.call(f, pts, D, d, I.C, I.L, I.st, I.wtt, single, min_k,
                     _limit=limit or limit_for(I.N))


def limit_for(N):
    return 30000000 if N <= 14 else 120000000


def unsupported(abbr, I, min_k):
    """Declared limitations: the heuristic refuses before it starts."""
    if abbr in NO_MIN_K and min_k:
        return NotImplementedError
    if abbr == "gap" and not I.C and not I.L:
        return ValueError
    return None
