"""Deterministic step budget and fault injection on top of sys.monitoring.

Both look only at events inside verypy code, so that a verdict never depends on
wall-clock time: `steps` counts calls and jumps, `interrupt_at` raises
KeyboardInterrupt - what a user's Ctrl-C does - at the k-th line event."""
import os
import sys

from . import env

MON = sys.monitoring
TOOL = 4
_PREFIX = os.path.realpath(os.path.join(env.REPO, "verypy")) + os.sep


class OutOfSteps(BaseException):
    pass


def _ours(code, _cache={}):
    r = _cache.get(code.co_filename)
    if r is None:
        r = os.path.realpath(code.co_filename).startswith(_PREFIX)
        _cache[code.co_filename] = r
    return r


class steps(object):
    """Context manager: at most `limit` calls + jumps of verypy code."""
    EV = MON.events.PY_START | MON.events.JUMP | MON.events.PY_RESUME

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def _cb(self, code, *a):
        if not _ours(code):
            return MON.DISABLE
        self.n += 1
        if self.n > self.limit:
            MON.set_events(TOOL, 0)
            raise OutOfSteps(self.n)

    def __enter__(self):
        MON.use_tool_id(TOOL, "rv")
        for e in (MON.events.PY_START, MON.events.JUMP, MON.events.PY_RESUME):
            MON.register_callback(TOOL, e, self._cb)
        MON.set_events(TOOL, self.EV)
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        for e in (MON.events.PY_START, MON.events.JUMP, MON.events.PY_RESUME):
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
        return False


class lines(object):
    """Count line events of verypy code; raise KeyboardInterrupt at event `at`
    (once). `limit` bounds the run like `steps`."""

    def __init__(self, at=None, limit=20000000, inside=None):
        self.n, self.at, self.limit, self.fired, self.where = 0, at, limit, False, None
        self.inside = inside

    def _cb(self, code, line):
        if not _ours(code) or (self.inside and os.path.basename(code.co_filename) not in self.inside):
            return MON.DISABLE
        self.n += 1
        if self.n == self.at:
            self.fired = True
            self.where = "%s:%d %s" % (os.path.basename(code.co_filename), line, code.co_name)
            raise KeyboardInterrupt()
        if self.n > self.limit:
            MON.set_events(TOOL, 0)
            raise OutOfSteps(self.n)

    def __enter__(self):
        MON.use_tool_id(TOOL, "rv")
        MON.register_callback(TOOL, MON.events.LINE, self._cb)
        MON.set_events(TOOL, MON.events.LINE)
        MON.restart_events()
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)
        return False


class interrupt(object):
    """Count the points at which CPython delivers a pending signal (start of a
    function, backward jump, return from a built-in) inside library code, and
    raise KeyboardInterrupt - what Ctrl-C does - at the `at`-th one, once."""
    EV = (MON.events.PY_START, MON.events.JUMP, MON.events.CALL, MON.events.C_RETURN, MON.events.PY_RESUME)

    def __init__(self, at=None, limit=20000000, tool=5):
        self.n, self.at, self.limit, self.fired, self.where, self.tool = 0, at, limit, False, None, tool
        self.out, self.masked = False, 0

    def _point(self, code, what):
        if self.masked:
            return                  # Gurobi takes the signal itself while it optimizes
        self.n += 1
        if self.n == self.at:
            self.fired = True
            self.where = "%s:%s %s" % (os.path.basename(code.co_filename), code.co_name, what)
            raise KeyboardInterrupt()
        if self.n > self.limit:
            self.out = True
            MON.set_events(self.tool, 0)
            raise OutOfSteps(self.n)

    def _start(self, code, off):
        if not _ours(code):
            return MON.DISABLE
        self._point(code, "start")

    def _jump(self, code, off, dest):
        if not _ours(code):
            return MON.DISABLE
        if dest <= off:
            self._point(code, "loop")

    def _call(self, code, off, f, arg0):
        if not _ours(code):
            return MON.DISABLE
        if getattr(f, "__name__", "") == "optimize":
            self.masked += 1

    def _cret(self, code, off, f, arg0):
        if getattr(f, "__name__", "") == "optimize":
            self.masked -= 1
        if _ours(code):
            self._point(code, "call")

    def __enter__(self):
        E = MON.events
        MON.use_tool_id(self.tool, "rvi")
        for e, f in ((E.PY_START, self._start), (E.JUMP, self._jump), (E.CALL, self._call), (E.C_RETURN, self._cret)):
            MON.register_callback(self.tool, e, f)
        MON.set_events(self.tool, E.PY_START | E.JUMP | E.CALL)
        MON.restart_events()
        return self

    def __exit__(self, *a):
        E = MON.events
        MON.set_events(self.tool, 0)
        for e in (E.PY_START, E.JUMP, E.CALL, E.C_RETURN):
            MON.register_callback(self.tool, e, None)
        MON.free_tool_id(self.tool)
        return False
