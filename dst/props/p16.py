"""P16: what an operation does never depends on what the process did before."""

import decimal
import locale
import os
import pickle
import signal
import sys

import numpy as np

import env
import inject
import runner
import simoiio
import specs
from core import Chooser, Ctx, HarnessError
from env import clf, lutFormats
from props import p04, p10, p13
from scen import CLOCKS, DIR, active, call, draw_fault, jump_clock, machine, resize
from world import World

RUNS = {"quick": (2800, 200), "thorough": (60000, 1800)}
NEEDS_FAULT = False
RULE = ("Seeded histories of 5 to 12 operations - loads, saves, imports, exports, conversions through functions and command "
        "lines, filter runs, processing - that share paths, with other content under the same path, size and time, and with "
        "failed, interrupted and edited ones in between; every undisturbed operation is compared with the same operation "
        "alone in a process that did nothing else, on the same files; non-trivial: distinct event log.")
STATES = "distinct (operation, what came before it, how that ended) combinations"
REAL = ["aces.clf, aces.lutFormats, the converters' functions and command lines, single-threaded filter",
        "xml.etree, expat, minidom, gzip, Python buffered and text I/O", "numpy", "forked processes"]
STUB = ["system calls below Python's raw files", "OpenImageIO, PyOpenColorIO", "clock"]
ASSUMES = ["the feature switch, which is meant to be process-wide, has the same value when results are compared"]

HERE = DIR + "/h"
KINDS = dict(p04.KINDS, **{"lut-to-clf": 1.5, "main-clf-to-lut": 1, "main-ocio-to-clf": 1, "filter": 1})
KINDS.pop("shared-save")


# operations as briefly as they can be asked for

def export_defaults(spec, path, layout, rng):
    pl = p04.build(spec)
    if layout == "1D":
        lutFormats.Registry.write(pl, path, lutResolution1d=4, **rng)
    elif layout == "3D":
        lutFormats.Registry.write(pl, path, "3D", lutResolution3d=2, **rng)
    else:
        lutFormats.Registry.write(pl, path, lutFormats.LUTDATAFORMAT_1D_3D_1D, lutResolution1d3d1d=[3, 2, 2], **rng)


def import_defaults(path):
    got = lutFormats.Registry.read(path)
    return p04.model(got)


def build_defaults(kinds):
    """Nodes made without optional arguments."""
    pl = clf.ProcessList()
    for k in kinds:
        pl.addProcess(getattr(clf, k)())
    if p04.MADE is not None:
        p04.MADE.append(pl)
    return p13.visible(pl)


def brief_op(ctx, w, path, kind=None, only=None):
    c = ctx.c
    kind = kind or c.pick(["export", "import", "build"], [3, 2, 2])
    if kind == "export":
        fmt, layout = c.pick([("spi1d", "1D"), ("spi3d", "3D"), ("csp", "1D"), ("csp", "3D"), ("csp", "13"), ("clf", "13"), ("ctl", "1D"),
                              ("ctl", "3D")], [1, 1, 1, 1, 4, 4, 1, 1])
        rng = c.pick([{}, {"inputMin": -1.0, "inputMax": 2.0}, {"inputMax": 4.0}], [2, 1, 1])
        spec = specs.Gen(c, types=["Matrix", "Range", "LUT1D"], rich=False, maxnodes=2).list()
        return p04.Op("export-defaults %s %s" % (fmt, layout), export_defaults, spec, path + "." + fmt, layout, rng)
    if kind == "import":
        fmt = only or c.pick(["spi1d", "spi3d", "csp"])
        data = p10.make(ctx, fmt)
        if c.flag(0.3):
            # optional lines are left out
            data = b"".join(l for l in data.splitlines(True) if not l.startswith((b"From", b"SPILUT", b"BEGIN", b"END", b"made")))
        w.put(path + "." + fmt, data)
        return p04.Op("import-defaults " + fmt, import_defaults, path + "." + fmt)
    kinds = [c.pick(NODES) for i in range(1 + c.choose(3))]
    return p04.Op("build-defaults", build_defaults, kinds)


NODES = ["Matrix", "Range", "LUT1D", "LUT3D", "ASCCDL", "ExposureContrast", "Gamma", "Log", "Group", "Reference"]


# -- processes that did nothing else ----------------------------------------------------------

class Fresh(object):
    """A copy of this process, made before it ran anything; answers each request from a copy of its own."""

    def __init__(self):
        self.owner = os.getpid()
        ask, self.to = runner._pipe()
        self.back, answer = runner._pipe()
        pid = runner._fork()
        if pid == 0:
            try:
                runner._os_close(self.to)
                runner._os_close(self.back)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.setitimer(signal.ITIMER_PROF, 0)
                self.serve(ask, answer)
            finally:
                runner._exit(0)
        self.pid = pid
        runner._os_close(ask)
        runner._os_close(answer)

    @staticmethod
    def read(fd, n):
        out = b""
        while len(out) < n:
            part = runner._os_read(fd, n - len(out))
            if not part:
                return None
            out += part
        return out

    @classmethod
    def receive(cls, fd):
        head = cls.read(fd, 8)
        return None if head is None else cls.read(fd, int.from_bytes(head, "big"))

    @staticmethod
    def send(fd, data):
        data = len(data).to_bytes(8, "big") + data
        while data:
            data = data[runner._os_write(fd, data):]

    def serve(self, ask, answer):
        while True:
            asked = self.receive(ask)
            if asked is None:
                return
            what, args = pickle.loads(asked)
            try:
                out = ("ok", runner.in_child(lambda: REQUESTS[what](*args), 60))
            except HarnessError as e:
                out = ("err", str(e))
            self.send(answer, pickle.dumps(out, 2))

    def __call__(self, what, *args):
        self.send(self.to, pickle.dumps((what, args), 2))
        got = self.receive(self.back)
        if got is None:
            raise HarnessError("the fresh process is gone")
        status, value = pickle.loads(got)
        if status == "err":
            raise HarnessError(value)
        return value


FRESH = None


def fresh():
    global FRESH
    if FRESH is None or FRESH.owner != os.getpid():
        FRESH = Fresh()
    return FRESH


class Job(object):
    """An operation and the disk it starts from."""

    def __init__(self, op, w, i):
        self.what = op.what
        self.data = pickle.dumps(op, 2)         # every execution gets a copy of its own
        self.files = {p: w.get(p) for p in w.files}
        self.dirs = sorted(w.dirs)
        self.images = pickle.dumps(dict(w.images), 2)
        self.number = i

    def op(self):
        return pickle.loads(self.data)

    def install(self, w, keep_time):
        for p in sorted(w.files):
            if p not in self.files:
                w.delete(p)
        w.dirs = set(self.dirs) | set(d for d in w.dirs if not d.startswith(DIR))
        for p in sorted(self.files):
            if w.get(p) != self.files[p] or not keep_time:
                w.put(p, self.files[p], keep_time=keep_time)
        w.images = pickle.loads(self.images)


def sibling(c, job):
    """The same operation with another setting, or on files of the same names with some digits changed or lines missing."""
    out = pickle.loads(pickle.dumps(job, 2))
    op = job.op()
    flags = [i for i, a in enumerate(op.args) if isinstance(a, bool)]
    if flags and c.flag(0.4):
        i = c.pick(flags)
        op.args = op.args[:i] + (not op.args[i],) + op.args[i + 1:]
        out.data = pickle.dumps(op, 2)
        out.what += " (other setting)"
        return out
    names = [p for p in sorted(job.files) if any(48 <= b <= 57 for b in job.files[p][:4000]) and job.files[p][:2] != b"\x1f\x8b"]
    if not names:
        return None
    p = c.pick(names)
    data = bytearray(job.files[p])
    if c.flag(0.4):
        # a damaged one: a line is missing, or all behind it
        lines = bytes(data).splitlines(True)
        k = c.choose(c.pick([3, 8, 60, len(lines)]) + 1) % len(lines)
        out.files[p] = b"".join(lines[:k] if c.flag(0.3) else lines[:k] + lines[k + 1:])
        out.what += " (missing lines)"
        return out
    digits = [i for i, b in enumerate(data) if 48 <= b <= 57 and i > 60]
    if not digits:
        return None
    for k in range(1 + c.choose(3)):
        data[c.pick(digits)] = 48 + c.choose(10)
    out.files[p] = bytes(data)
    out.what += " (other content)"
    return out


def plan(c):
    """Draws the operations. Returns them and the chooser, for the caller to go on with."""
    ctx = Ctx(c)
    ctx.worlds = []
    jobs = []
    # some runs do one thing only, with differing inputs
    focus, fmt = None, None
    if c.flag(0.4):
        focus = c.pick(["import", "build", "export"] + sorted(KINDS), [7, 0.5, 1] + [1] * len(KINDS))
        fmt = c.pick(["spi1d", "spi3d", "csp"])
    for i in range(2 + c.choose(4)):
        w = World(ctx)
        w.mkdir(DIR)
        w.mkdir(HERE)
        with active(w):
            simoiio.images()
            if c.flag(0.5):
                p04.save(specs.build(clf, specs.Gen(c, **p04.SMALL).list()), p04.SHARED, c.flag(0.3))
            i = c.choose(2)
            if focus in ("import", "build", "export"):
                op = brief_op(ctx, w, "%s/f%d" % (HERE, i), focus, fmt)
            elif focus:
                op = p04.make_op(ctx, w, HERE, i, None, {focus: 1})
            elif c.flag(0.2):
                op = brief_op(ctx, w, "%s/f%d" % (HERE, i))
            else:
                op = p04.make_op(ctx, w, HERE, i, None, KINDS)
        w.collect()
        jobs.append(Job(op, w, len(jobs)))
        if c.flag(0.4):
            s = sibling(c, jobs[-1])
            if s is not None:
                s.number = len(jobs)
                jobs.append(s)
    return jobs, c


def alone(job):
    np.seterr(all="warn")
    ctx = Ctx(Chooser(script=[]))
    ctx.worlds = []
    w = World(ctx, now=CLOCKS[0])
    with active(w):
        job.install(w, False)
        got = p04.outcome(job.op())
        w.collect()
        left = p04.files(w, DIR)
    return got, left


REQUESTS = {"plan": plan, "alone": alone}


# -- what belongs to the process as a whole ----------------------------------------------------

def settings():
    """What a calling program shares with the code."""
    return [("working directory", os.getcwd()), ("environment", sorted(os.environ.items())), ("command line", list(sys.argv)),
            ("standard streams", [id(sys.stdin), id(sys.stdout), id(sys.stderr)]), ("recursion limit", sys.getrecursionlimit()),
            ("numpy error handling", sorted(np.geterr().items())),
            ("numpy printing", repr(sorted(np.get_printoptions().items(), key=repr))), ("locale", locale.setlocale(locale.LC_ALL)),
            ("decimal context", repr(decimal.getcontext())), ("signal handler", signal.getsignal(signal.SIGINT)),
            ("feature switch", clf.getFeatureCompatibility())]


def altered(a, b):
    for (name, x), (_, y) in zip(a, b):
        if x != y:
            return "%s: %.100r -> %.100r" % (name, x, y)
    return None


# -- editing -----------------------------------------------------------------------------------

def scribble(c, x, depth=0):
    """Overwrites what the getters of x hand out."""
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable and x.dtype.kind in "fi":
            x.flat[c.choose(x.size)] += 3
        return
    if isinstance(x, list):
        if x and isinstance(x[0], (int, float)):
            x[c.choose(len(x))] = 77.0
        elif x and depth < 5:
            scribble(c, x[c.choose(len(x))], depth + 1)
        return
    if isinstance(x, dict):
        x["scribble"] = "1"
        return
    if depth > 5 or not type(x).__module__.startswith(("aces", "clf")):
        return
    for name in sorted(dir(type(x))):
        if name.startswith("get") and name not in ("getWriteReferencedNodes", "getClass"):
            try:
                v = getattr(x, name)()
            except Exception:
                continue
            scribble(c, v, depth + 1)


SETTERS = [("setMatrix", ([2, 0, 0, 0, 2, 0, 0, 0, 2], [3, 3, 3])), ("setMinInValue", (0.125,)), ("setMaxOutValue", (0.875,)),
           ("setSlope", ([3.0, 3.0, 3.0],)), ("setOffset", ([0.5, 0.5, 0.5],)), ("setPower", ([2.0, 2.0, 2.0],)),
           ("setSaturation", (0.5,)), ("setInBitDepth", ("8i",)), ("setOutBitDepth", ("16f",)), ("setID", ("edited",)),
           ("setName", ("edited",)), ("setDynamicParam", ("exposure",)), ("setStyle", ("noClamp",))]


def edit(c, pl):
    """Changes a transform in place. Returns how."""
    how = c.pick(["attribute", "add", "setter", "scribble", "element"])
    nodes = [n for n in pl]
    target = c.pick([pl] + nodes)
    if how == "attribute":
        name = c.pick(["id", "name", "comment", "style", "bypass", "interpolation"])
        call(lambda: target.setAttribute(name, "edited"))
    elif how == "add":
        where = c.pick([pl] + [n for n in nodes if hasattr(n, "addProcess")])
        call(lambda: where.addProcess(specs.build(clf, specs.Gen(c, rich=False, maxnodes=1).list())[0]))
    elif how == "setter":
        usable = [(n, a) for n, a in SETTERS if hasattr(target, n)]
        if usable:
            n, a = c.pick(usable)
            call(lambda: getattr(target, n)(*a))
    elif how == "element":
        call(lambda: target.addElement(clf.Comment("edited", "Description")))
    else:
        scribble(c, target)
    return how


# -- the histories -------------------------------------------------------------------------------

def noise(ctx, w, job, live):
    c = ctx.c
    what = c.pick(["none", "fault", "line", "full", "features", "edit", "sizes", "library"], [4, 3, 3, 1, 1, 3, 1, 1])
    if what == "edit":
        if not live:
            return "none", None
        x = live.pop(c.choose(len(live)))
        return "edit " + edit(c, x[0]), None
    if what == "sizes":
        resize(ctx, w)
        return what, None
    if what == "none":
        return what, None
    job.install(w, c.flag(0.5))
    got = None
    if what == "features":
        env.set_features(c.pick([0, 1, 2, 3]))
        got = p04.outcome(job.op())
        env.set_features(15)
    elif what == "full":
        w.full_at = c.choose(c.pick([100, 2000, 20000]))
        got = p04.outcome(job.op())
        w.full_at = None
    elif what == "fault":
        n = w.nops
        w.ops = []
        p04.outcome(job.op())
        w.collect()
        ops, w.ops = w.ops, None
        job.install(w, c.flag(0.5))
        f = draw_fault(ctx, ops)
        if f is not None:
            w.arm(*f)
        got = p04.outcome(job.op())
        w.disarm()
        w.sticky = []
    else:
        with inject.Lines(c.choose(c.pick([20, 200, 1500, 6000])), c.pick([KeyboardInterrupt, MemoryError]), w,
                          library=what == "library") as ln:
            got = p04.outcome(job.op())
        if ln.fired:
            ctx.fault("interrupt@line")
            what += " " + got[0]
    w.collect()
    return what, got


def run(ctx):
    """With numpy's settings as a program finds them."""
    old = np.seterr(all="warn")
    try:
        history(ctx)
    finally:
        np.seterr(**old)


def history(ctx):
    c = ctx.c
    first = fresh()
    jobs, c2 = first("plan", c)
    c.__dict__.update(c2.__dict__)
    w = machine(ctx)
    want, live, trail = {}, [], []
    ctx.summary = [[j.what for j in jobs]]
    ctx.log("jobs", [j.what for j in jobs])
    with active(w):
        before = settings()
        for step in range(5 + c.choose(8)):
            other = c.pick(jobs)
            p04.MADE = []
            what, got = noise(ctx, w, other, live)
            if what not in ("none", "sizes"):
                trail.append("%s: %s" % (what, other.what) if got is not None else what)
            ctx.log("noise", what, other.what, got and got[0])
            d = altered(before, settings())
            ctx.check(d is None, "process-changed", lambda: "%s (%s): %s" % (other.what, what, d))
            if what != "none":
                jump_clock(ctx, w)
            job = c.pick(jobs)
            job.install(w, c.flag(0.6))
            got = p04.outcome(job.op())
            w.collect()
            left = p04.files(w, DIR)
            ctx.log("op", job.what, got[0])
            ctx.state((job.what, trail[-1:], got[0]))
            d = altered(before, settings())
            ctx.check(d is None, "process-changed", lambda: "%s: %s" % (job.what, d))
            if job.number not in want:
                want[job.number] = first("alone", job)
            then, files = want[job.number]
            ctx.check(p04.same(got, then), "history", lambda: "%s after [%s]: %s" % (
                job.what, "; ".join(trail), differs(got, then)))
            ctx.check(sorted(left) == sorted(files), "history", lambda: "%s after [%s] leaves files %s, alone in a new process %s" % (
                job.what, "; ".join(trail), sorted(left), sorted(files)))
            for p in left:
                ctx.check(left[p] == files[p], "history", lambda: "%s after [%s]: file %s differs: %s" % (
                    job.what, "; ".join(trail), p, p04.where(left[p], files[p])))
            trail.append(job.what)
            for pl in p04.MADE[-2:]:
                live.append((pl, p13.visible(pl), specs.result_of(pl, specs.PROBES[0]), job.what))
            p04.MADE = None
            live = live[-6:]
        for pl, seen, res, what in live:
            now = p13.visible(pl)
            ctx.check(now == seen, "shared-state", lambda: "the transform of %s changed during [%s]: %s" % (
                what, "; ".join(trail), p13.changed(seen, now)))
            ctx.check(p04.same(specs.result_of(pl, specs.PROBES[0]), res), "shared-state", lambda: (
                "results of the transform of %s changed during [%s]" % (what, "; ".join(trail))))


def differs(a, b):
    if a[0] == b[0] == "ok":
        x, y = repr(a[1]), repr(b[1])
        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        return "result ...%s instead of ...%s" % (x[max(0, i - 60):i + 120], y[max(0, i - 60):i + 120])
    return "%s instead of %s alone in a new process" % (p04.cut(a), p04.cut(b))
