"""P14: every file opened is closed when the call ends, whatever fails."""

import env
import inject
import specs
from core import Violation
from env import lutFormats
from props import p09, p10, p11
from scen import DIR, active, call, clf, count_ops, draw_fault, gen_spec, jump_clock, load, machine, must, resize, save, shape

RUNS = {"quick": (4500, 90), "thorough": (150000, 1500)}
RULE = ("Seeded histories of loads, saves, imports, exports and conversions in one process with few descriptors and no "
        "garbage collection, each call under its own fault - errors, interrupts and exhausted memory at a chosen system call "
        "or line, full disks, damaged, missing and refused files; non-trivial: distinct event log in which a fault fired.")
STATES = "distinct (call, fault, how the call ended) combinations"
REAL = ["aces.clf, aces.lutFormats, the three converters", "xml.etree, expat, minidom, gzip, Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files, the table of open descriptors", "PyOpenColorIO", "clock"]
ASSUMES = ["an interrupt between the return of open and the assignment of its result is left out: no program can close that file"]


def a_load(ctx, w):
    c = ctx.c
    refs = []
    for i in range(c.choose(3)):
        r = specs.Gen(c, types=["Matrix", "Range", "LUT1D"] + ["Reference"] * len(refs), rich=False, refs=refs, bypass=False).list()
        p = DIR + "/lr%d.clf" % i
        save(specs.build(clf, r), p, c.flag(0.4))
        refs.append(p)
    path = DIR + "/l.clf"
    save(specs.build(clf, gen_spec(ctx, refs=refs, groups=1, types=None if not refs else ["Reference", "Group", "LUT1D"])), path, c.flag(0.5))
    strict = c.flag(0.4)
    used = c.flag(0.3)
    obj = clf.ProcessList()
    return ("load", (lambda: obj.readFile(path, strict)) if used else (lambda: load(path, strict)), refs + [path])


def a_save(ctx, w):
    c = ctx.c
    refs = []
    if c.flag(0.3):
        p = DIR + "/sr.clf"
        save(specs.build(clf, specs.Gen(c, types=["Matrix", "Range"], rich=False).list()), p)
        refs.append(p)
    pl = specs.build(clf, gen_spec(ctx, refs=refs, groups=1))
    if c.flag(0.1):
        pl.setAttribute("bad", "a\x01b")        # cannot be serialised
        ctx.fault("unserialisable")
    gz, own = c.flag(0.5), c.flag(0.3)
    path = c.pick([DIR + "/s.clf", DIR + "/none/s.clf", DIR], [6, 1, 1])
    return "save", lambda: save(pl, path, gz, own), []


def a_import(ctx, w):
    c = ctx.c
    fmt = c.pick(["spi1d", "spi3d", "csp", "clf"])
    path = DIR + "/i." + fmt
    if fmt == "clf":
        save(specs.build(clf, gen_spec(ctx, groups=1, types=["Matrix", "LUT1D", "LUT3D", "Range"])), path, c.flag(0.5))
    else:
        w.put(path, p10.make(ctx, fmt))
    inverse, maps = c.flag(0.2) and fmt == "spi1d", c.flag(0.5)
    return "import " + fmt, lambda: lutFormats.Registry.read(path, inverse, "linear", maps, False), [path]


def a_export(ctx, w):
    j = p09.job(ctx)
    pl = specs.build(clf, j["spec"])
    path = ctx.c.pick([DIR + "/e." + j["fmt"], DIR + "/none/e." + j["fmt"]], [8, 1])
    return "export %s %s" % (j["fmt"], j["lay"]), lambda: p09.export(j, pl, path), []


def a_convert(ctx, w):
    which = ctx.c.choose(3)
    k = (p11.lut_to_clf, p11.clf_to_lut, lambda x, y: p11.ocio_to_clf(x, y, ctx.c.flag(0.2)))[which](ctx, w)
    return ["lut-to-clf", "clf-to-lut", "ocio-to-clf"][which], k.do, list(k.inputs)


def spoil(ctx, w, inputs):
    """Damages an input. Returns what was done."""
    c = ctx.c
    p = c.pick(inputs)
    how = c.pick(["cut", "gone", "garbage", "empty", "flip", "directory", "tail"])
    data = w.get(p)
    if data is None:
        return None
    if how == "cut":
        w.put(p, data[:c.choose(len(data) + 1)])
    elif how == "gone":
        w.delete(p)
    elif how == "garbage":
        w.put(p, b"\x1f\x8b\x08\x00" + b"x" * 40 if c.flag(0.5) else b"<a></b>")
    elif how == "empty":
        w.put(p, b"")
    elif how == "flip" and data:
        i = c.choose(len(data))
        w.put(p, data[:i] + bytes([data[i] ^ (1 << c.choose(8))]) + data[i + 1:])
    elif how == "directory":
        w.delete(p)
        w.dirs.add(p)
    else:
        how = "tail"
        w.put(p, data + b"extra" * 3)
    ctx.fault("input-" + how)
    return how, p


def run(ctx):
    c = ctx.c
    w = machine(ctx, bufsize=c.pick([8192, 512, 4096, 1 << 16]))
    w.mkdir(DIR)
    with active(w):
        n = 1 + c.pick([0, 1, 3, 7], [6, 3, 1, 0.5])
        for k in range(n):
            w.fd_budget = None
            name, do, inputs = c.pick([a_load, a_save, a_import, a_export, a_convert], [3, 3, 2, 2, 2])(ctx, w)
            ctx.check(not w.open_files(), "left-open", lambda: "preparing %s left %s open" % (name, w.open_files()))
            mode = c.pick(["none", "op", "line", "input", "full", "refused", "descriptors"], [1, 5, 4, 2, 1, 1, 1])
            label, lines, hurt = mode, None, None
            if mode == "op":
                ops, _ = count_ops(ctx, w, do)
                f = draw_fault(ctx, ops)
                if f is not None:
                    w.arm(*f)
                    label = shape(f, ops)
                w.fds = {}
            elif mode == "full":
                w.full_at = c.choose(c.pick([1, 40, 4000]))
            elif mode == "input" and inputs:
                hurt = spoil(ctx, w, inputs)
                label = "input %s" % (hurt[0] if hurt else "none")
            elif mode == "refused":
                env.set_features(c.choose(3))
                ctx.fault("features-off")
            elif mode == "descriptors":
                w.fd_budget = c.choose(2)
                ctx.fault("few-descriptors")
            elif mode == "line":
                snap = w.snapshot()
                count = inject.Lines(w=w)
                with count:
                    call(do)
                ctx.check(not w.open_files(), "left-open", lambda: "%s left %s open" % (name, w.open_files()))
                w.restore(snap)
                exc = c.pick([KeyboardInterrupt, MemoryError, RuntimeError])
                lines = inject.Lines(c.choose(max(1, count.count)), exc, w)
                label = exc.__name__ + "@line"
            if w.fd_budget is None:
                w.fd_budget = 4
            ctx.log("call", k, name, label)
            if lines is not None:
                with lines:
                    got = call(do)
                if lines.fired:
                    ctx.fault(label)
                    ctx.log("at", lines.fired)
                    label += " " + lines.fired
            else:
                got = call(do)
            ctx.log(got[0], type(got[1]).__name__)
            ctx.state((name, label, got[0], type(got[1]).__name__))
            left = w.open_files()
            ctx.check(not left, "left-open", lambda: "%s (%s) %s and left %s open" % (
                name, label, "returned" if got[0] == "ok" else "raised %s: %s" % (type(got[1]).__name__, got[1]), left))
            w.disarm()
            w.sticky = []
            w.full_at = None
            env.set_features(15)
            if hurt and hurt[0] == "directory":
                w.dirs.discard(hurt[1])
            resize(ctx, w)
            w.bufsize = max(w.bufsize, 512)
