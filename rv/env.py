"""Process set-up shared by every check: which tree is imported, quiet library
warnings, no byte-code written into /repo."""
import io
import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k, _v in (("OMP_NUM_THREADS", "1"), ("OPENBLAS_NUM_THREADS", "1"),
               ("MPLBACKEND", "Agg")):
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)


def load():
    """Import verypy from the working tree of the repository."""
    saved, sys.stderr = sys.stderr, io.StringIO()
    try:
        import verypy
    finally:
        sys.stderr = saved
    here = os.path.realpath(verypy.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("verypy imported from %s and not from %s" % (here, REPO))
    return verypy


class quiet(object):
    """Swallow what the library prints while it is being exercised."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        self.out, self.err = sys.stdout.getvalue(), sys.stderr.getvalue()
        sys.stdout, sys.stderr = self.o, self.e
        return False
