"""P04: independent work in concurrent threads does not interfere."""

import errno
import os
import re

import numpy as np

import imgs
import inject
import runner
import simoiio
import simthreads
import specs
import world
from core import Violation
from env import filt, lutFormats
from props import p09, p10, p11
from scen import DIR, active, clf, load, machine, plain, save

RUNS = {"quick": (2600, 120), "thorough": (120000, 2400)}
RULE = ("Seeded schedules of 2 to 4 threads, each with its own sequence of loads, saves, processing, imports, exports and "
        "conversions of its own transforms - all may read one shared file and save one shared transform - some of them failing: "
        "damaged and missing files, disk errors on a thread's own file, an interrupt at a chosen line; every thread's results, "
        "files and errors are compared with those of the same thread alone in a forked copy of the process; non-trivial: "
        "distinct event log (schedule, system calls and faults in order).")
STATES = "distinct (operations of each thread, scheduling mode, fault, switches bucket) combinations"
NEEDS_FAULT = False
REAL = ["aces.clf, aces.lutFormats, the converters' functions, single-threaded filter", "xml.etree, expat, minidom, gzip, Python buffered and text I/O",
        "numpy", "real threads, one at a time"]
STUB = ["the thread scheduler", "system calls below Python's raw files", "OpenImageIO, PyOpenColorIO", "clock"]
ASSUMES = ["threads change over at calls, lines and returns of the repository's code and at system calls, not inside a line or a library call",
           "the feature switch is not changed while threads run"]

SHARED = DIR + "/shared.clf"
SMALL = dict(rich=True, groups=1, maxnodes=3)


MADE = None             # collects the transforms operations come up with, where wanted


def build(spec):
    pl = specs.build(clf, spec)
    if MADE is not None:
        MADE.append(pl)
    return pl


def model(pl):
    if pl is None:
        return None
    if MADE is not None and not isinstance(pl, list):
        MADE.append(pl)
    if isinstance(pl, list):
        return [type(x).__name__ for x in pl]
    return specs.live_model(pl), [specs.result_of(pl, v) for v in (specs.PROBES[0], specs.PROBES[1])]


class Op(object):
    """what: label; do(): runs it, returns something comparable. Can be pickled, to be run by another process."""

    def __init__(self, what, fn, *args):
        self.what, self.fn, self.args = what, fn, args

    def do(self):
        return self.fn(*self.args)


def do_save(spec, path, gz, own=False):
    return save(build(spec), path, gz, own)


def do_load(path, strict=False):
    return model(load(path, strict))


def do_process(spec, vals):
    return specs.result_of(build(spec), vals)


def do_import(path, inverse, maps):
    return model(lutFormats.Registry.read(path, inverse, "linear", maps, False))


def do_export(j, path):
    return p09.export(j, build(j["spec"]), path)


def do_cycle(spec, path, gz):
    save(build(spec), path + ".clf", gz)
    pl = load(path + ".clf")
    save(pl, path + "b.clf", not gz)
    return model(pl)


def do_filter(spec, path):
    filt.filterImageWithCLF(path + ".in", path + ".out", build(spec), outBitDepth="32f", multithreaded=1)
    got = simoiio.images().get(path + ".out")
    return None if got is None or got.data is None else (got.finished, got.data.tobytes(), got.attribs)


def do_unserialisable(spec, path):
    pl = build(spec)
    pl.setAttribute("bad", "a\x01b")
    save(pl, path + ".clf", False)


KINDS = {"save": 4, "load": 4, "process": 2, "import": 4, "export": 3, "clf-to-lut": 1, "ocio-to-clf": 1, "bad": 3,
         "shared-load": 3, "shared-save": 2, "cycle": 3, "filter": 0.7}


def make_op(ctx, w, d, i, shared_pl, kinds=KINDS):
    c = ctx.c
    kind = c.pick(list(kinds), list(kinds.values()))
    path = "%s/f%d" % (d, i)
    if kind == "save":
        spec = specs.Gen(c, **SMALL).list()
        return Op("save", do_save, spec, path + ".clf", c.flag(0.4), c.flag(0.2))
    if kind == "load":
        refs = []
        for k in range(c.choose(3)):
            r = specs.Gen(c, types=["Matrix", "Range", "LUT1D"] + ["Reference"] * len(refs), rich=False, refs=refs).list()
            save(specs.build(clf, r), "%s-r%d.clf" % (path, k), c.flag(0.3))
            refs.append("%s-r%d.clf" % (path, k))
        spec = specs.Gen(c, refs=refs, types=["Reference", "Group", "LUT1D", "Matrix"] if refs else None, **SMALL).list()
        save(specs.build(clf, spec), path + ".clf", c.flag(0.4))
        return Op("load", do_load, path + ".clf", c.flag(0.3))
    if kind == "process":
        spec = specs.Gen(c, rich=False, groups=1, maxnodes=3).list()
        return Op("process", do_process, spec, specs.probe_values(c, spec, 2, 3))
    if kind == "import":
        fmt = c.pick(["spi1d", "spi3d", "csp"])
        w.put(path + "." + fmt, p10.make(ctx, fmt))
        inverse, maps = c.flag(0.3) and fmt == "spi1d", c.flag(0.7)
        return Op("import " + fmt, do_import, path + "." + fmt, inverse, maps)
    if kind == "export":
        j = p09.job(ctx)
        j["n1"] = min(j["n1"], 8)
        return Op("export " + j["fmt"], do_export, j, path + "." + j["fmt"])
    if kind in CONVERSIONS:
        keep = p11.DIR
        p11.DIR = path
        w.mkdir(path)
        try:
            k = CONVERSIONS[kind](ctx, w)
        finally:
            p11.DIR = keep
        return Op(kind, k.do)
    if kind == "bad":
        return bad_op(ctx, w, d, path)
    if kind == "shared-load":
        return Op(kind, do_load, SHARED, c.flag(0.3))
    if kind == "shared-save":
        return Op(kind, save, shared_pl, path + ".clf", c.flag(0.3))
    if kind == "cycle":
        spec = specs.Gen(c, **SMALL).list()
        return Op("cycle", do_cycle, spec, path, c.flag(0.4))
    img, depth, vals = imgs.make_image(ctx, 1 + c.choose(2))
    img.width, img.height = 1, 1
    img.data = img.data[:img.channels]
    simoiio.images()[path + ".in"] = img
    spec = specs.Gen(c, types=["Matrix", "ASC_CDL", "Range"], rich=False, maxnodes=2).list()
    return Op("filter", do_filter, spec, path)


CONVERSIONS = {"clf-to-lut": lambda ctx, w: p11.clf_to_lut(ctx, w, 0),
               "ocio-to-clf": lambda ctx, w: p11.ocio_to_clf(ctx, w, ctx.c.flag(0.2), 0),
               # these change the command line of the process: not in threads
               "lut-to-clf": p11.lut_to_clf, "main-clf-to-lut": lambda ctx, w: p11.clf_to_lut(ctx, w, 1),
               "main-ocio-to-clf": lambda ctx, w: p11.ocio_to_clf(ctx, w, ctx.c.flag(0.2), 1)}


def bad_op(ctx, w, d, path):
    c = ctx.c
    how = c.pick(["missing", "cut", "garbage", "unknown", "directory", "lut", "unserialisable", "empty"])
    if how in ("cut", "garbage", "unknown", "empty"):
        spec = specs.Gen(c, types=["Group", "Group", "Matrix", "Range"] if how == "unknown" and c.flag(0.4) else None, **SMALL).list()
        gz = c.flag(0.5)
        save(specs.build(clf, spec), path + ".clf", gz)
        data = w.get(path + ".clf")
        if how == "cut":
            data = data[:c.choose(len(data))]
        elif how == "garbage":
            data = data[:len(data) // 2] + b"<\x00>" + data[len(data) // 2:]
        elif how == "empty":
            data = b""
        else:
            data = plain(data)
            end = b"</Group>" if b"</Group>" in data and c.flag(0.6) else b"</ProcessList>"
            data = data.replace(end, b"<Unknown a='1'/>" + end, 1)
        w.put(path + ".clf", data)
        return Op("load-" + how, do_load, path + ".clf", how == "unknown" and c.flag(0.8))
    if how == "missing":
        return Op("load-missing", do_load, path + ".none")
    if how == "directory":
        spec = specs.Gen(c, **SMALL).list()
        return Op("save-nowhere", do_save, spec, path + "-none/x.clf", c.flag(0.5))
    if how == "lut":
        fmt = c.pick(["spi1d", "spi3d", "csp"])
        data = p10.make(ctx, fmt)
        w.put(path + "." + fmt, data[:c.choose(len(data))])
        return Op("import-cut " + fmt, do_import, path + "." + fmt, False, True)
    spec = specs.Gen(c, rich=False, maxnodes=2).list()
    return Op("save-unserialisable", do_unserialisable, spec, path)


def message(e):
    """What the error says, without what may differ between runs: addresses, and the name given to a file of its own making."""
    said = re.sub(r"0x[0-9a-f]+", "0x", str(e))
    if isinstance(e, EnvironmentError) and isinstance(e.filename, str):
        said = said.replace(e.filename, os.path.dirname(e.filename))
    return said


def outcome(op):
    try:
        return ("ok", op.do())
    except (Exception, KeyboardInterrupt) as e:
        return ("err", type(e).__name__, message(e))


def files(w, d):
    return {p: plain_or_raw(w.get(p)) for p in sorted(w.files) if p.startswith(d + "/")}


def plain_or_raw(data):
    try:
        return plain(data)
    except Exception:
        return b"damaged:" + data


def same(a, b):
    """Equality of outcomes; floats compare by bits, NaN equals NaN."""
    return repr(a) == repr(b)


def run(ctx):
    c = ctx.c
    w = machine(ctx, bufsize=c.pick([8192, 512, 1 << 16]))
    n = c.pick([2, 3, 4], [5, 3, 1])
    with active(w):
        spec = specs.Gen(c, **SMALL).list()
        save(specs.build(clf, spec), SHARED, c.flag(0.3))
        shared_pl = specs.build(clf, specs.Gen(c, **SMALL).list())
        simoiio.images()
        work = []
        for t in range(n):
            d = "%s/t%d" % (DIR, t)
            w.mkdir(d)
            work.append([make_op(ctx, w, d, i, shared_pl) for i in range(c.pick([1, 2, 3], [3, 3, 1]))])
        fault = c.pick(["none", "disk", "line"], [3, 2, 2])
        victim = c.choose(n)
        if fault == "disk":
            mine = "%s/t%d/f%d.clf" % (DIR, victim, c.choose(len(work[victim])))
            kinds, err = c.pick([(("write",), errno.ENOSPC), (("write",), errno.EIO), (("open",), errno.EACCES),
                                 (("read",), errno.EIO), (("open",), errno.EMFILE)])
            w.sticky.append((kinds, err, mine))
    mode = c.pick(["runs", "priorities"], [3, 2])
    label = [[o.what for o in ops] for ops in work]
    ctx.summary = [label, mode, fault]
    ctx.log("job", label, mode, fault)
    snap = w.snapshot()
    pictures = dict(w.images)
    keep = w.now, w.entropy.getstate()

    def alone(t):
        def go():
            with active(w):
                got = [outcome(op) for op in work[t]]
            return got, files(w, "%s/t%d" % (DIR, t))
        return go
    want = [runner.in_child(alone(t), 60) for t in range(n)]
    w.restore(snap)
    w.now = keep[0]
    w.images = dict(pictures)

    lengths = c.pick([(1, 4, 20, 100, 1000), (3,), (1, 2000), (60,), (400,)])
    s = simthreads.Scheduler(ctx, w, mode, lengths=lengths, changes=1 + c.choose(4), horizon=c.pick([300, 2000, 8000]))
    got = [[] for t in range(n)]

    def body(t):
        def go():
            for op in work[t]:
                s.resume()
                got[t].append(outcome(op))
                ctx.log("op", t, op.what, got[t][-1][0])
        return go
    with active(w):
        for t in range(n):
            task = s.spawn("t%d" % t, body(t))
            if fault == "line" and t == victim:
                task.strike = (c.choose(c.pick([20, 200, 1500])), c.pick([KeyboardInterrupt, MemoryError]))
        s.run()
    for t in s.tasks:
        if t.error is not None:
            raise t.error
    struck = s.tasks[victim].fired if fault == "line" else None
    if struck:
        ctx.fault("interrupt-in-thread")
    if s.switches:
        ctx.fault("preemption", s.switches)
    ctx.state((label, mode, fault, struck, min(s.switches, 30)))
    for t in range(n):
        if struck and t == victim:
            continue
        for op, x, y in zip(work[t], got[t], want[t][0]):
            ctx.check(same(x, y), "interference", lambda: "thread %d (%s) beside %s: %s instead of %s alone" % (
                t, op.what, [label[k] for k in range(n) if k != t], cut(x), cut(y)))
        d = "%s/t%d" % (DIR, t)
        mine = files(w, d)
        ctx.check(sorted(mine) == sorted(want[t][1]), "interference", lambda: "thread %d left files %s instead of %s alone" % (
            t, sorted(mine), sorted(want[t][1])))
        for p in mine:
            ctx.check(mine[p] == want[t][1][p], "interference", lambda: "thread %d (%s) beside %s: file %s differs from the one alone: %s" % (
                t, label[t], [label[k] for k in range(n) if k != t], p, where(mine[p], want[t][1][p])))


def where(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r instead of %r at byte %d" % (a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40], i)


def cut(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."
