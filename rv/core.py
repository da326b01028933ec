"""Driver shared by all checks: runs the chunks of one property's workload on all
cores, collects what the monitors saw and turns it into a verdict."""
import collections
import fnmatch
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import budget, env

KNOWN = os.path.join(env.VERIF, "known_findings.json")
WORKERS = int(os.environ.get("RV_WORKERS", "8"))


class ChunkTimeout(BaseException):
    pass


class Rec(object):
    """What one chunk of workload observed."""

    def __init__(self):
        self.n = 0
        self.sigs = set()
        self.events = collections.Counter()
        self.samples = []
        self.viol = []
        self.unsure = collections.Counter()

    def case(self, sig, nontrivial=True, sample=None):
        """One execution that an oracle judged. `sig` identifies it."""
        self.n += 1
        if nontrivial:
            self.sigs.add(hash(sig) & 0xffffffffffff)
        if sample is not None and len(self.samples) < 1:
            self.samples.append(sample)

    def count(self, name, k=1):
        self.events[name] += k

    def high(self, name, v):
        self.events["max " + name] = max(self.events["max " + name], v)

    def bad(self, key, text, data=None):
        if len(self.viol) < 40:
            self.viol.append({"key": key, "text": text, "data": data})
        self.count("violations")

    def maybe(self, why):
        self.unsure[why] += 1


class Outcome(object):
    """Result of one guarded call into the library."""
    __slots__ = ("value", "exc", "steps", "out", "err", "ended")

    def __init__(self):
        self.value = self.exc = None
        self.steps, self.out, self.err, self.ended = 0, "", "", True

    @property
    def ok(self):
        return self.ended and self.exc is None

    def why(self):
        if not self.ended:
            return "did not end within the step budget"
        if self.exc is not None:
            return "%s: %s at %s" % (type(self.exc).__name__, str(self.exc)[:200], where(self.exc))
        return "ok"


def where(exc):
    """Innermost frame of the library (function name: stable under edits)."""
    tb = [f for f in traceback.extract_tb(exc.__traceback__) if os.sep + "verypy" + os.sep in f.filename]
    return "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else "?"


def call(f, *a, **kw):
    """Run library code: output swallowed, steps counted and bounded."""
    limit = kw.pop("_limit", 20000000)
    o = Outcome()
    b = budget.steps(limit)
    q = env.quiet()
    try:
        with q, b:
            o.value = f(*a, **kw)
    except budget.OutOfSteps:
        o.ended = False
    except ChunkTimeout:
        raise
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        o.exc = e
    o.steps, o.out, o.err = b.n, q.out, q.err
    return o


_mod = None


def _init(modname):
    global _mod
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    env.load()
    _mod = importlib.import_module(modname)


def _alarm(*a):
    raise ChunkTimeout()


def run_chunk(arg):
    pid, seed, tier, idx, limit = arg
    rec = Rec()
    rng = random.Random("%s|%s|%s" % (pid, seed, idx))
    random.seed(rng.random())
    err = None
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        _mod.chunk(rng, idx, tier, rec)
    except ChunkTimeout:
        rec.maybe("chunk hit the wall-clock watchdog")
    except Exception:
        err = traceback.format_exc()
    finally:
        signal.alarm(0)
    for v in rec.viol:
        v["chunk"] = idx
    return idx, rec, err, time.time() - t


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


def main(pid, tier=None, seed=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    modname = "rv.props.%s" % pid.lower()
    mod = importlib.import_module(modname)
    nchunks = mod.CHUNKS[tier]
    wall = {"quick": 420, "thorough": 780}[tier]
    wall = int(os.environ.get("RV_WALL", wall))
    per = int(getattr(mod, "CHUNK_SECONDS", {"quick": 240, "thorough": 420}[tier]))
    todo = list(range(nchunks)) if only is None else list(only)

    tot = Rec()
    errors, done, times = [], 0, []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(WORKERS, len(todo)), _init, (modname,)) as pool:
        it = pool.imap_unordered(run_chunk, [(pid, seed, tier, i, per) for i in todo])
        while done + len(errors) < len(todo):
            left = wall - (time.time() - t0)
            try:
                idx, rec, err, secs = it.next(timeout=max(0.01, left))
            except multiprocessing.TimeoutError:
                tot.unsure["chunks not run within the time limit"] += len(todo) - done - len(errors)
                break
            times.append((secs, idx))
            if err:
                errors.append((idx, err))
                continue
            done += 1
            tot.n += rec.n
            tot.sigs |= rec.sigs
            for k, v in rec.events.items():
                if k.startswith("max "):
                    tot.events[k] = max(tot.events[k], v)
                else:
                    tot.events[k] += v
            tot.unsure.update(rec.unsure)
            tot.viol += rec.viol
            if rec.samples and len(tot.samples) < 3:
                tot.samples += rec.samples[:1]
        pool.terminate()

    known = [k for k in load_known() if k["property"] == pid]
    fresh, seen = [], collections.OrderedDict()
    for v in sorted(tot.viol, key=lambda v: (v["key"], v["chunk"])):
        k = next((k for k in known if fnmatch.fnmatchcase(v["key"], k["key"])), None)
        if k is not None:
            seen.setdefault(k["id"], [k, 0])[1] += 1
        else:
            fresh.append(v)
    for k, n in seen.values():
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
    # a listed finding is reported also when this run's sample did not reach it
    for k in known:
        if k["id"] not in seen:
            print("KNOWN-FINDING: property=%s %s: %s (not reached in this run)" % (pid, k["id"], k["what"]))

    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": tot.n, "distinct_nontrivial": len(tot.sigs), "rule": mod.RULE,
                       "samples": tot.samples[:3],
                       "events": dict(sorted(tot.events.items())),
                       "inconclusive": dict(tot.unsure), "chunks_done": done, "chunks_planned": len(todo)},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    if fresh:
        rdir = os.path.join(env.VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        keys = collections.OrderedDict()
        for v in fresh:
            keys.setdefault(v["key"], []).append(v)
        for n, (key, vs) in enumerate(list(keys.items())[:8]):
            path = os.path.join(rdir, "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, "chunk": vs[0]["chunk"],
                           "how": "python %s %s --replay %s" % ("/verif/check.py", pid, path),
                           "violations": vs[:3]}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s (%d times)" % (key, vs[0]["text"][:400], len(vs)))
        return 1
    print("%s %s seed %d: %d executions judged, %d distinct, %d/%d chunks, %.1f s; %s"
          % (pid, tier, seed, tot.n, len(tot.sigs), done, len(todo), time.time() - t0,
             dict(sorted(tot.events.items()))))
    if os.environ.get("RV_TIMES"):
        print(sorted(times, reverse=True)[:8])
    if tot.unsure:
        print("inconclusive:", dict(tot.unsure))
    if errors:
        print("HARNESS ERROR in %d chunks, e.g. %d:\n%s" % (len(errors), errors[0][0], errors[0][1]))
        return 2
    need = mod.MIN[tier] if only is None else 1
    if len(tot.sigs) < need:
        print("INCONCLUSIVE: %d distinct executions judged, %d needed" % (len(tot.sigs), need))
        return 3
    return 0
