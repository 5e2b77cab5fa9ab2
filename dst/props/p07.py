"""P07: a save that fails says so, spares the old file if refused, and can be retried."""

import env
import errno
import inject
import specs
from core import Violation
from scen import (DIR, active, call, check_loaded, clf, count_ops, draw_fault, gen_spec, load, machine, must, resize, save,
                  shape, valid_content, whole)

RUNS = {"quick": (8000, 90), "thorough": (250000, 1500)}
RULE = ("Seeded histories of failing saves followed by a retry: errors, partial writes and full disks at a chosen system call, "
        "interrupts and exhausted memory at a chosen system call or a chosen line of the code under test, or a refusal "
        "(feature off, content that cannot be serialised); non-trivial: distinct event log in which a fault fired.")
STATES = "distinct (kind of failure, where, compression, earlier file, how the call ended) combinations"
REAL = ["aces.clf save, load and process", "xml.etree, expat and minidom", "gzip, zlib, Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files: in-memory disk with injected errors", "clock"]
ASSUMES = ["interrupts strike between system calls or between lines of the code under test, not inside clean-up handlers",
           "a file object the program abandoned is closed at some later time, after the retry"]


def spoil(c, spec):
    """Content that cannot be serialised; returns (spoilt builder, what)."""
    how = c.pick(["control", "attr-control", "nontext", "surrogate", "value", "missing-ref", "bad-attr"])

    def make():
        pl = specs.build(clf, spec)
        if how == "control":
            pl.addElement(clf.Description("a\x01b"))
        elif how == "attr-control":
            pl.setName("x\x02")
        elif how == "nontext":
            pl.addElement(clf.Description(5))
        elif how == "surrogate":
            pl.addElement(clf.Description("a\ud800"))
        elif how == "value":
            m = clf.Matrix("32f", "32f", "m", "m")
            m.setMatrix([3, 3], [1.0] * 8 + ["x"], "string")
            pl.addProcess(m)
        elif how == "missing-ref":
            pl.addProcess(clf.Reference("32f", "32f", "r", "r", path=DIR + "/none.clf"))
        else:
            pl.setAttribute("\x00", "1")
        return pl
    return make, how


def refused(ctx, w, path):
    c = ctx.c
    old = w.get(path)
    kind = c.pick(["gzip-off", "encoding-off", "content"])
    spec = gen_spec(ctx, groups=1, encodings=kind == "encoding-off")
    gz = c.flag(0.5)
    if kind == "encoding-off":
        g = specs.Gen(c)
        n = g.node(types=["Matrix", "LUT1D", "LUT3D"])
        n["enc"] = "hex32bit"
        n.pop("rawHalfs", None)
        n["out"] = "32f"
        n["values"] = [0.5] * len(n["values"])
        spec["nodes"].append(n)
    make = lambda: specs.build(clf, spec)
    what = kind
    if kind == "content":
        make, what = spoil(c, spec)
    pl = must(ctx, make, "build-fails", "building")
    if kind == "gzip-off":
        gz = True
        env.set_features(c.choose(2))
    elif kind == "encoding-off":
        gz = False
        env.set_features(c.choose(2))
    before = len(w.opened)
    got = call(lambda: save(pl, path, gz, what == "missing-ref"))
    ctx.fault("refused:" + what)
    env.set_features(15)
    ctx.state(("refused", what, gz, old is not None, got[0]))
    ctx.check(got[0] == "err", "refusal-missing", lambda: "a save that had to be refused (%s) returned normally" % what)
    if kind != "content":
        ctx.check(isinstance(got[1], clf.Errors.UnsupportedExtensionError) or
                  type(got[1]).__name__ == "UnsupportedExtensionError", "refusal-type",
                  lambda: "refused with %s: %s" % (type(got[1]).__name__, got[1]))
    w.collect()
    now = w.get(path)
    if old is None:
        ctx.check(now is None, "refused-created", lambda: "a refused save (%s) created a file of %d bytes" % (what, len(now)))
    else:
        ctx.check(now == old, "refused-changed", lambda: "a refused save (%s) changed the existing file from %d to %s bytes" % (
            what, len(old), len(now) if now is not None else "no"))
    if kind == "content":
        pl = specs.build(clf, spec)
    must(ctx, lambda: save(pl, path, gz), "retry-fails", "the save after the cause was gone")
    loaded = must(ctx, lambda: load(path), "retry-unreadable", "loading after the retry")
    check_loaded(ctx, spec, specs.build(clf, spec), loaded, [0.25, 0.5, 0.75], "retry-wrong")


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    path = DIR + "/t.clf"
    vals = [0.25, 0.5, 0.75]
    with active(w):
        if c.flag(0.6):
            first = gen_spec(ctx, groups=1, maxnodes=3)
            must(ctx, lambda: save(specs.build(clf, first), path, c.flag(0.5)), "save-fails", "saving")
        if c.flag(0.3):
            return refused(ctx, w, path)
        spec = gen_spec(ctx, groups=1, types=None, long=0.04)
        built = must(ctx, lambda: specs.build(clf, spec), "build-fails", "building")
        gz = c.flag(0.5)
        first_spec = spec
        before = whole(ctx, spec, built, vals)
        had = w.get(path) is not None
        for attempt in range(1 + c.choose(3)):
            ops, clean = count_ops(ctx, w, lambda: save(built, path, gz))
            if clean[0] == "err":
                raise Violation("save-fails", "saving failed: %s: %s" % (type(clean[1]).__name__, clean[1]))
            mode = c.pick(["op", "full", "line", "library"], [5, 2, 2, 0.7 if gz else 0])
            lines = None
            if mode == "op":
                f = draw_fault(ctx, ops)
                w.arm(*f)
                label = shape(f, ops)
            elif mode == "full":
                total = sum(n for k, p, n in ops if k == "write")
                w.full_at = c.choose(max(1, total))
                label = "full"
            else:
                kw = {"w": w, "early": True, "library": True} if mode == "library" else {"w": w, "early": c.flag(0.5)}
                count = inject.Lines(**kw)
                snap = w.snapshot()
                with count:
                    call(lambda: save(built, path, gz))
                w.collect()
                w.restore(snap)
                exc = c.pick([KeyboardInterrupt, MemoryError])
                # the last lines are the ones around the writing
                k = max(1, count.count)
                lines = inject.Lines(c.choose(k) if c.flag(0.5) else k - 1 - c.choose(min(k, 5)), exc, **kw)
                label = exc.__name__ + "@" + mode
            ctx.log("attempt", attempt, label)
            if lines is not None:
                with lines:
                    got = call(lambda: save(built, path, gz))
                if lines.fired:
                    ctx.fault(label)
                    ctx.log("at", lines.fired)
            else:
                got = call(lambda: save(built, path, gz))
            w.disarm()
            w.sticky = []
            w.full_at = None
            ctx.state((label, gz, had, got[0], type(got[1]).__name__ if got[0] == "err" else ""))
            if got[0] == "ok":
                data = w.get(path)
                m = valid_content(data) if data is not None else None
                d = "it is not a whole file (%s bytes)" % (None if data is None else len(data)) if m is None else \
                    specs.differ(specs.expect(spec), m)
                ctx.check(d is None, "false-success", lambda: "the save returned normally after %s, but %s" % (label, d))
            else:
                ctx.probe("reported")
            resize(ctx, w)
        final = built
        if c.flag(0.3):
            # another transform takes the place of the one whose save failed
            spec = gen_spec(ctx, groups=1, maxnodes=2)
            final = must(ctx, lambda: specs.build(clf, spec), "build-fails", "building")
        must(ctx, lambda: save(final, path, gz), "retry-fails", "the retry after the faults were gone")
        data = w.get(path)
        n = w.collect()
        if n:
            ctx.probe("abandoned-files-closed-later")
        ctx.check(w.get(path) == data, "late-write",
                  "data left over from a failed save reached the file after the retry had finished")
        loaded = must(ctx, lambda: load(path), "retry-unreadable", "loading after the retry")
        check_loaded(ctx, spec, final, loaded, vals, "retry-wrong")
        after = whole(ctx, first_spec, built, vals)
        ctx.check(before == after, "transform-changed", "the failed saves changed the results of the transform")


