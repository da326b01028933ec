"""A stand-in for tkinter: there is no display (and no tkinter) here. It keeps what
a program puts on its window, so that a driver can press, type and read. Methods
it does not know are accepted and do nothing."""
import os
import sys
import types


class TclError(Exception):
    pass


class World(object):
    """Everything one window has, and the answers of its dialogs."""

    def __init__(self):
        self.widgets, self.boxes, self.asked, self.answers = [], [], [], []
        self.x11 = True


world = World()


def reset():
    global world
    world = World()
    return world


class Var(object):
    def __init__(self, master=None, value=None, name=None):
        self.value = "" if value is None else value
        self.name = name

    def set(self, v):
        self.value = v

    def get(self):
        return self.value

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None


class Widget(object):
    kind = "widget"

    def __init__(self, master=None, *args, **kw):
        self.master, self.args, self.opt = master, args, dict(kw.pop("cnf", None) or {}, **kw)
        self.init()
        world.widgets.append(self)

    def init(self):
        pass

    def config(self, *a, **kw):
        self.opt.update(kw)
    configure = config

    def __setitem__(self, k, v):
        self.opt[k] = v

    def __getitem__(self, k):
        return self.opt[k]

    cget = __getitem__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None

    def destroy(self):
        if self in world.widgets:
            world.widgets.remove(self)

    @property
    def shown(self):
        v = self.opt.get("textvariable")
        return str(v.get() if v is not None else self.opt.get("text", ""))


class Tk(Widget):
    kind = "root"

    def iconbitmap(self, bitmap=None, default=None):
        b = bitmap or default
        if b and (not os.path.exists(b) or world.x11 and b.lower().endswith(".ico")):
            raise TclError('bitmap "%s" not defined' % b)


class Entry(Widget):
    kind = "entry"

    def init(self):
        self.var = self.opt.get("textvariable") or Var()

    def _at(self, i):
        s = self.var.get()
        return len(s) if i in ("end", "insert") else min(int(i), len(s))

    def get(self):
        return self.var.get()

    def insert(self, i, s):
        t, k = self.var.get(), self._at(i)
        self.var.set(t[:k] + s + t[k:])

    def delete(self, a, b=None):
        t, i = self.var.get(), self._at(a)
        self.var.set(t[:i] + t[(i + 1 if b is None else self._at(b)):])


class Button(Widget):
    kind = "button"

    def invoke(self):
        c = self.opt.get("command")
        return c() if c else None


class OptionMenu(Widget):
    kind = "choice"

    def __init__(self, master, variable, value, *values, **kw):
        Widget.__init__(self, master, **kw)
        self.variable, self.values = variable, (value,) + values
        self.command = kw.get("command")

    def choose(self, v):
        self.variable.set(v)
        if self.command:
            self.command(v)


class Label(Widget):
    kind = "label"


class Frame(Widget):
    kind = "frame"


class Canvas(Widget):
    kind = "canvas"


class Text(Widget):
    kind = "text"


class Toplevel(Tk):
    kind = "toplevel"


def install():
    tk = types.ModuleType("tkinter")
    for k, v in list(globals().items()):
        if isinstance(v, type) and issubclass(v, Widget) or k == "TclError":
            setattr(tk, k, v)
    for k in ("StringVar", "IntVar", "DoubleVar", "BooleanVar", "Variable"):
        setattr(tk, k, Var)
    for k in ("END", "INSERT", "LEFT", "RIGHT", "TOP", "BOTTOM", "BOTH", "X", "Y", "N", "S", "E", "W", "NSEW", "NORMAL", "DISABLED", "CENTER"):
        setattr(tk, k, k.lower())
    tk.__path__ = []
    fd, mb = types.ModuleType("tkinter.filedialog"), types.ModuleType("tkinter.messagebox")

    def ask(kind):
        def f(*a, **kw):
            world.asked.append(kind)
            return world.answers.pop(0) if world.answers else ""
        return f
    fd.askopenfilename, fd.asksaveasfilename = ask("open"), ask("save")

    def box(kind):
        def f(title=None, message=None, **kw):
            world.boxes.append((kind, title, message))
            return "ok"
        return f
    for k in ("showerror", "showinfo", "showwarning"):
        setattr(mb, k, box(k))
    tk.filedialog, tk.messagebox = fd, mb
    sys.modules.update({"tkinter": tk, "tkinter.filedialog": fd, "tkinter.messagebox": mb})
    return tk
