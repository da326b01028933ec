"""The window, and solving from a file: what is asked for is solved, what was found
is shown, returned and saved."""
import os
import re
import shutil
import sys
import tempfile

from .. import core, env, fake, faketk, oracle
from .v19 import FAST, Recorder, canon, expected_matrix, matches, near, with_argv, write

fake.install()
CHUNKS = {"quick": 32, "thorough": 320}
MIN = {"quick": 3000, "thorough": 30000}
CHUNK_SECONDS = 300
RULE = ("windows opened on a stand-in for tkinter (no display here), each used for 3..9 steps: choosing, mistyping and cancelling problem files, "
        "choosing algorithms, asking for information, solving own-written .vrp, .tsp and pickled problems of 2..8 customers, and exporting in both formats "
        "before and after solving; algorithms are wrapped to record their calls and in part made to fail or to return nothing. Calls of the "
        "function that solves a problem file directly, with interruptions, both objectives and repetitions. Non-trivial: a plan was shown, saved or returned")
ASSUMPTIONS = ["the stand-in behaves like tkinter for the widgets used (buttons, entries, option menus, labels, variables, dialogs); layout is not judged",
               "an icon that is missing, or an .ico under X11, raises TclError as in tkinter"]
_state = {}


def gui():
    """The window's module, imported on the stand-in with recorded algorithms."""
    if "gui" not in _state:
        import random
        faketk.install()
        import verypy
        R = _state["rec"] = Recorder(random.Random(0), ("ok",))
        real = verypy.get_algorithms
        _state["real"] = {nm + ":" + desc: (a, nm, desc, f) for a, nm, desc, f in real("all")}
        verypy.get_algorithms = R.get(real)
        try:
            with env.quiet():
                import verypy.VeRyPyGui as g
        finally:
            verypy.get_algorithms = real
        _state["gui"] = g
    return _state["gui"], _state["rec"], _state["real"]


def one(ws, kind, text=None):
    got = [w for w in ws if w.kind == kind and (text is None or text in w.shown.lower())]
    return got[0] if got else None


class Session(object):
    def __init__(self, rng, rec, folder):
        self.rng, self.rec, self.folder, self.log = rng, rec, folder, []
        g, self.R, self.algos = gui()
        self.w = faketk.reset()
        self.w.x11 = rng.random() < .5
        self.shown = None           # (problem, plan) last shown
        self.problem = None
        o = core.call(lambda: g.VeRyPyGuiApp())
        self.app = o.value
        self.alive = o.ok
        if not o.ok:
            rec.bad("gui/start", "the window does not open: %s" % o.why())

    def bad(self, key, text):
        self.rec.bad("gui/" + key, "%s; after %s" % (text, self.log), {"steps": list(self.log)})
        self.alive = False

    def press(self, text, what):
        b = one(self.w.widgets, "button", text)
        if b is None:
            self.rec.count("not judged: no button " + what)
            self.alive = False
            return None
        self.log.append(what)
        del self.w.boxes[:], self.w.asked[:]
        o = core.call(b.invoke, _limit=150000000)
        del self.w.answers[:]
        if not o.ended:
            self.rec.maybe("window cut off")
            self.alive = False
            return None
        if not o.ok:
            self.bad("crash/" + what.split()[0], "%s: %s" % (what, o.why()))
            return None
        return o

    def entry(self):
        return one(self.w.widgets, "entry")

    def choice(self):
        return one(self.w.widgets, "choice")

    def text(self):
        return " | ".join(w.shown for w in self.w.widgets if w.kind == "label")

    # ---- steps
    def open(self):
        e = self.entry()
        before = e.get()
        how = self.rng.choice(("file",) * 6 + ("cancel", "cancel", "gone"))
        if how == "file":
            p = write(self.rng, self.folder, "p%d" % self.rng.randint(0, 999))
            self.w.answers.append(p.path)
        elif how == "cancel":
            self.w.answers.append(self.rng.choice(("", ())))
        else:
            self.w.answers.append(os.path.join(self.folder, "nothing.vrp"))
        if self.press("...", "choose " + how) is None:
            return
        if how == "file":
            self.problem = p
            if e.get() != p.path:
                self.bad("field", "the field has %r, chosen was %r" % (e.get(), p.path))
        elif e.get() != before:
            self.bad("field", "the field has %r, nothing was chosen (before %r)" % (e.get(), before))
        self.rec.count("files chosen" if how == "file" else "files not chosen")

    def algorithm(self):
        c = self.choice()
        missing = sorted(x for x in self.algos if x not in c.values)
        if missing or len(c.values) != len(set(c.values)) or len(c.values) != len(self.algos):
            self.bad("algorithms", "the window does not offer %s (%d of %d)" % (missing, len(c.values), len(self.algos)))
            return
        v = self.rng.choice([x for x in c.values if self.algos[x][0] in FAST])
        c.choose(v)
        self.log.append("algorithm " + v.split(":")[0])

    def info(self):
        if self.press(u"\U0001f6c8", "information") is None:
            return
        f = self.algos[self.choice().variable.get()][3]
        if len(self.w.boxes) != 1 or (f.__doc__ or "").strip() not in str(self.w.boxes[0][2]):
            self.bad("information", "shown: %r" % (self.w.boxes,))
        self.rec.count("information boxes")

    def mistype(self):
        e = self.entry()
        e.delete(0, "end")
        e.insert(0, os.path.join(self.folder, "no such file.vrp"))
        self.problem = None
        self.log.append("type a wrong name")

    def solve(self):
        fault = self.rng.choice(("ok",) * 5 + ("fail", "none"))
        self.R.rng, self.R.faults = self.rng, (fault,)
        del self.R.calls[:]
        before = self.text()
        v = self.choice().variable.get()
        if self.algos[v][0] not in FAST:
            return
        if self.press("solve", "solve (%s)" % fault) is None:
            return
        calls, errors = list(self.R.calls), [b for b in self.w.boxes if b[0] == "showerror"]
        self.rec.count("solve pressed, " + (fault if self.problem else "no problem"))
        self.rec.case((tuple(self.log), repr(self.problem and self.problem.pts)), False)
        p = self.problem
        if p is None:
            if calls or not errors or self.text() != before:
                self.bad("no-problem", "no problem file, but calls %d, errors %s, shows %r" % (len(calls), errors, self.text()))
            return
        if len(calls) != 1:
            self.bad("calls", "%d algorithms called for %s (%s)" % (len(calls), p.path, errors))
            return
        c = calls[0]
        if (c["a"], c["name"]) != self.algos[v][:2]:
            self.bad("algorithm", "%s was called, chosen was %s" % (c["a"], v))
        elif not matches(c, p, dict(rounding=None)) or c["single"] or c["K"]:
            self.bad("input", "called with other data or options")
        elif c["how"] != "ok":
            if not errors:
                self.bad("silent", "the algorithm %s, but no error is shown" % c["how"])
            elif self.text() != before:
                self.bad("stale", "after a failure %r is shown" % self.text())
        elif not c["sol"]:
            self.alive = False
        else:
            D, Dc = expected_matrix(p, None)
            self.shown = (p, c["sol"])
            cost, k = oracle.cost(c["sol"], Dc), len(oracle.routes_of(c["sol"]))
            m = re.search(r"(-?\d+(?:\.\d+)?(?:e\+?\d+)?) \(K=(\d+)\)", self.text())
            if errors:
                self.bad("error", "a plan was found, but %s is shown" % (errors,))
            elif not m or not near(float(m.group(1)), cost, 1) or int(m.group(2)) != k:
                self.bad("result", "shows %r for %s, which costs %r and has %d routes" % (self.text(), c["sol"], cost, k))
            else:
                self.rec.case((tuple(self.log), repr(p.pts)), True, {"steps": list(self.log), "shown": self.text(), "plan": c["sol"]})
                self.rec.count("plans shown")

    def export(self):
        ext = self.rng.choice((".opt", ".opt", ".OPT", ".sol", ".sol", ".txt", None))
        name = ext and os.path.join(self.folder, "out%d%s" % (self.rng.randint(0, 9), ext))
        old = None
        if name:
            if self.rng.random() < .5:
                with open(name, "w") as f:
                    f.write("Route #1: 9\nCost : 1\n")
            old = open(name).read() if os.path.exists(name) else None
        self.w.answers.append(name or self.rng.choice(("", ())))
        files = sorted(os.listdir(self.folder))
        if self.press("export", "export %s" % ext) is None:
            return
        now = sorted(os.listdir(self.folder))
        errors = [b for b in self.w.boxes if b[0] == "showerror"]
        if self.shown is None or not name:
            if now != files or name and old is not None and open(name).read() != old:
                self.bad("export-nothing", "a file was written without a plan or a name: %s" % sorted(set(now) - set(files)))
            elif self.shown is None and not errors:
                self.bad("export-silent", "nothing to export, but no error is shown")
            self.rec.count("exports refused or cancelled")
            return
        if set(now) != set(files) | {os.path.basename(name)}:
            self.bad("export-files", "files %s instead of %s" % (now, name))
            return
        p, sol = self.shown
        t = open(name).read()
        want = [list(map(int, r)) for r in oracle.routes_of(sol)]
        if ext.lower() == ".opt":
            got = [[int(x) for x in l.split(":", 1)[1].split()] for l in t.splitlines() if l.startswith("Route")]
            c = re.findall(r"^Cost\s*:?\s*(.*)$", t, re.M)
            ok = sorted(map(min2, got)) == sorted(map(min2, want)) and len(c) == 1 and near(float(c[0]), oracle.cost(sol, expected_matrix(p, None)[1]), 2)
        else:
            x = [int(y) for y in t.split()]
            got, cur = [], None
            for y in x[1:-1]:
                if y < 0:
                    cur = [-y]
                    got.append(cur)
                elif cur is not None:
                    cur.append(y)
            ok = bool(x) and x[0] == p.n + 1 and x[-1] == 0 and sorted(map(min2, got)) == sorted(map(min2, want))
        if not ok:
            self.bad("export", "%s holds %r, the plan is %s" % (name, t[:500], sol))
            return
        self.rec.case((tuple(self.log), repr(p.pts), ext), True)
        self.rec.count("plans exported " + ext.lower())


def min2(r):
    return min(tuple(r), tuple(reversed(r)))


def window(rng, rec, folder):
    s = Session(rng, rec, folder)
    if s.alive and (s.entry() is None or s.choice() is None):
        rec.count("not judged: other widgets")
        return
    if not s.alive:
        return
    s.algorithm()
    if s.alive and rng.random() < .7:
        s.open()
    rec.count("windows opened")
    for _ in range(rng.randint(3, 9)):
        if not s.alive:
            return
        rng.choice((s.open,) * 4 + (s.solve,) * 6 + (s.export,) * 5 + (s.algorithm,) * 2 + (s.info, s.mistype))()
    rec.high("steps in a window", len(s.log))


# ---- solving a problem file directly -------------------------------------------
def direct(rng, rec, folder):
    from verypy import shared_cli
    g, R, algos = gui()
    p = write(rng, folder, "d%d" % rng.randint(0, 999))
    v = rng.choice(sorted(x for x in algos if algos[x][0] in FAST))
    a, nm, _, f = algos[v]
    from .. import algs
    min_k = rng.random() < .4 and a not in algs.NO_MIN_K
    single, times, verb = rng.random() < .3, rng.choice((1, 1, 2, 4)), rng.choice((-1, -1, 0, 1, 2))
    R.rng, R.faults = rng, rng.choice((("ok",), ("ok",), ("ok", "none"), ("ok", "interrupt"), ("ok", "interrupt with plan"), ("none",)))
    del R.calls[:]
    wrapped = R.wrap(a, nm, f)
    if rng.random() < .5 and times > 1:
        # plans of different quality: the best has to be kept
        base = wrapped

        def wrapped(points, D, d, C, L, st, wtt, s, k):
            sol = base(points, D, d, C, L, st, wtt, s, k)
            if sol and rng.random() < .6:
                sol = [0]
                for x in rng.sample(range(1, len(D)), len(D) - 1):
                    sol += [x, 0]
                R.calls[-1]["sol"] = sol
            return sol
    args = [p.path, wrapped, min_k]
    kw = {"best_of_n": times, "verbosity": verb, "single": single}
    if rng.random() < .3:
        kw["print_measured_time"] = True
    o = core.call(shared_cli.read_and_solve_a_problem, *args, _limit=150000000, **kw)
    tag = "read_and_solve_a_problem(%s, %s, %s, %s)" % (os.path.basename(p.path), a, min_k, kw)
    data = {"problem": (p.ewt, p.C, p.L, p.st, p.d, p.pts), "stdout": o.out[-3000:], "faults": R.faults}
    if not o.ended:
        rec.maybe("run cut off")
        return
    calls = list(R.calls)
    if R.errors:
        del R.errors[:]
        rec.count("heuristic failed (judged by V01)")
        return
    interrupted = any(c["how"] == "interrupted" for c in calls)
    if o.exc is not None and not (interrupted and type(o.exc) is KeyboardInterrupt):
        rec.bad("file/crash/%s" % core.where(o.exc), "%s: %s" % (tag, o.why()), data)
        return
    if interrupted:
        rec.case((tag, repr(p.pts)), False)
        if o.exc is None or calls[-1]["how"] != "interrupted":
            rec.bad("file/interrupt", "%s: goes on after an interruption (%s)" % (tag, [c["how"] for c in calls]), data)
        return
    if len(calls) != times:
        rec.bad("file/runs", "%s: %d runs" % (tag, len(calls)), data)
        return
    if any(not matches(c, p, dict(rounding=None)) or bool(c["single"]) != single or bool(c["K"]) != min_k for c in calls):
        rec.bad("file/input", "%s: called with other data or options" % tag, data)
        return
    got = [c["sol"] for c in calls if c["how"] == "ok" and c["sol"]]
    if not isinstance(o.value, tuple) or len(o.value) != 4:
        rec.bad("file/answer", "%s: returns %r" % (tag, o.value), data)
        return
    sol, f1, f2, el = o.value
    if not got:
        rec.case((tag, repr(p.pts)), False)
        if sol is not None or f1 is not None or f2 is not None:
            rec.bad("file/nothing", "%s: nothing found, returns %r" % (tag, o.value), data)
        return
    if sol is None:
        rec.bad("file/answer", "%s: returns nothing of %s" % (tag, got), data)
        return
    D, Dc = expected_matrix(p, None)
    key = lambda s: ((len(oracle.routes_of(s)),) if min_k else ()) + (oracle.cost(s, Dc),)
    sol = [int(x) for x in sol]
    mine = key(sol)
    better = [s for s in got if key(s)[:-1] < mine[:-1] or key(s)[:-1] == mine[:-1] and key(s)[-1] < mine[-1] - 1e-6 * (1 + mine[-1])]
    if canon(sol) not in [canon(s) for s in got] or better:
        rec.bad("file/best", "%s: returns %s of %s" % (tag, sol, got), data)
    elif not near(f1, oracle.cost(sol, D)) or not near(f2, oracle.cost(sol, Dc)):
        rec.bad("file/cost", "%s: returns %r and %r for %s, true %r and %r" % (tag, f1, f2, sol, oracle.cost(sol, D), oracle.cost(sol, Dc)), data)
    elif not el >= 0:
        rec.bad("file/time", "%s: %r seconds" % (tag, el), data)
    rec.case((tag, repr(p.pts)), True, {"run": tag, "answer": [sol, float(f1), float(f2)]})
    rec.count("problem files solved (%s)" % p.kind)


def chunk(rng, idx, tier, rec):
    tmp = tempfile.mkdtemp(prefix="rv-v29-")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        for k in range(60):
            folder = os.path.join(tmp, "r%d" % k)
            os.mkdir(folder)
            window(rng, rec, folder)
            for _ in range(2):
                direct(rng, rec, folder)
            shutil.rmtree(folder)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
