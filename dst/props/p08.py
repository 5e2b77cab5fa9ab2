"""P08: a load is all or nothing, and a failed load can be retried."""

import gzip

import env
import inject
import specs
from core import Violation
from scen import (DIR, active, call, check_loaded, clf, count_ops, draw_fault, gen_spec, load, machine, must, plain, resize,
                  save, shape)

RUNS = {"quick": (9000, 90), "thorough": (250000, 1500)}
RULE = ("Seeded loads of plain and compressed files, with references, under errors, short reads, interrupts and exhausted "
        "memory at a chosen system call or line, into new and used objects, followed by a retry; and strict loads of "
        "files with unknown elements or switched-off extensions; non-trivial: distinct event log in which a fault fired.")
STATES = "distinct (kind of failure, where, compression, references, how the call ended) combinations"
REAL = ["aces.clf load and process", "xml.etree and expat", "gzip, zlib, Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files: in-memory disk with injected errors", "clock"]
ASSUMES = ["a file a transform refers to that does not exist is passed over by design; one that exists must load",
           "an object is only required to stay as it was when the file itself could not be read"]
from scen import ERRNOS
import errno
ERRNOS.setdefault("stat", [errno.EACCES, errno.EIO])


def snapshot(pl, vals):
    return specs.live_model(pl), specs.result_of(pl, vals)


def strictness(ctx, w):
    """Unknown elements and switched-off extensions, plain and compressed."""
    c = ctx.c
    unknown = c.flag(0.5)
    # nested by hand: the refused element sits in the list or in a group
    inner = [gen_spec(ctx, types=["Matrix", "Range"], groups=0, rich=False, maxnodes=1, bypass=False, dyn=False)["nodes"][0]]
    path = DIR + "/s.clf"
    if unknown:
        feats = c.pick([15, 3, 2, 0, 1])
        text = "<Foo a='1'>x</Foo>" if c.flag(0.5) else "<Un_known-Node inBitDepth='16f'/>"
        deep = feats & 2 and c.flag(0.5)
        spec = {"attrs": {"id": "s"}, "elements": [], "nodes": inner}
        pl = specs.build(clf, spec)
        into = pl
        for k in range(1 + c.choose(3) if deep else 0):
            g = clf.Group("32f", "32f", "g%d" % k, "g")
            into.addProcess(g)
            g.addProcess(specs.build_node(clf, inner[0]))
            into = g
        save(pl, path)
        data = w.get(path)
        tag = b"</Group>" if deep else b"</ProcessList>"
        at = c.pick([i for i in range(len(data)) if data.startswith(tag, i)])
        data = data[:at] + text.encode() + data[at:]
        want = "UnknownProcessNodeError"
        gz = bool(feats & 2) and c.flag(0.5)
        what = "unknown element in the %s" % ("group" if deep else "list")
    else:
        t = c.pick(["ExposureContrast", "Gamma", "Log", "Reference", "Group", "DynamicParameter"])
        feats = 2 if t != "Group" else c.pick([1, 0])
        if t != "Group" and c.flag(0.3):
            feats = 0
        gz = bool(feats & 2) and c.flag(0.6)
        deep = t != "Group" and bool(feats & 2) and c.flag(0.5)
        if t == "DynamicParameter":
            n = dict(inner[0], dyn=["EXPOSURE"])
        elif t == "Reference":
            n = {"t": t, "in": "32f", "out": "32f", "id": "r", "name": "r", "desc": [], "dyn": [], "bypass": False,
                 "path": DIR + "/none.clf", "base": "", "alias": ""}
        else:
            g = specs.Gen(c, rich=False, bypass=False, dyn=False)
            n = {"t": t, "in": "32f", "out": "32f", "id": "n", "name": "n", "desc": [], "dyn": [], "bypass": False}
            if t == "Group":
                n["nodes"] = list(inner)
            else:
                getattr(g, "g_" + t)(n, 0)
        for k in range(1 + c.choose(2) if deep else 0):
            n = {"t": "Group", "in": "32f", "out": "32f", "id": "g", "name": "g", "desc": [], "dyn": [], "bypass": False,
                 "nodes": [n]}
        nodes = [inner[0], n] if c.flag(0.5) else [n]
        save(specs.build(clf, {"attrs": {"id": "s"}, "elements": [], "nodes": nodes}), path)
        data = w.get(path)
        want = "UnsupportedExtensionError"
        what = "%s with feature set %d%s" % (t, feats, " in a group" if deep else "")
    if gz:
        data = gzip.compress(data, 6, mtime=0)
    w.put(path, data)
    # whatever failed or was loaded before must not matter
    for k in range(c.choose(3)):
        env.set_features(c.pick([15, 2, 0]))
        call(lambda: load(path, c.flag(0.5)))
    env.set_features(feats)
    got = call(lambda: load(path, True))
    name = type(got[1]).__name__ if got[0] == "err" else "no error"
    ctx.log("strict", what, gz, name)
    ctx.fault("strict-refusal")
    ctx.state(("strict", what, gz, name))
    ctx.check(name == want, "strict-accepts" if got[0] == "ok" else "strict-error",
              lambda: "strict loading of a %s file with %s: %s instead of %s" % ("compressed" if gz else "plain", what, name, want))
    got = call(lambda: load(path, False))
    ctx.check(got[0] == "ok", "lenient-fails", lambda: "loading the same file without strict: %r" % (got[1],))
    env.set_features(15)


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    vals = [0.25, 0.5, 0.75]
    with active(w):
        if c.flag(0.25):
            return strictness(ctx, w)
        refs = []
        if c.flag(0.5):
            r = specs.Gen(c, types=["Matrix", "Range", "ASC_CDL", "LUT1D"], rich=False, bypass=False).list()
            save(specs.build(clf, r), DIR + "/ref.clf", c.flag(0.4))
            refs.append(DIR + "/ref.clf")
        spec = gen_spec(ctx, refs=refs, groups=1, types=None if not refs or c.flag(0.5) else ["Reference", "Matrix", "Group"])
        gz = c.flag(0.5)
        path = DIR + "/t.clf"
        built = must(ctx, lambda: specs.build(clf, spec), "build-fails", "building")
        must(ctx, lambda: save(built, path, gz), "save-fails", "saving")
        into = c.pick(["new", "empty", "used"])
        other = gen_spec(ctx, groups=1, maxnodes=2, types=["Matrix", "Range", "ASC_CDL", "LUT1D"])
        strict = c.flag(0.4)
        for attempt in range(1 + c.choose(2)):
            target = clf.ProcessList() if into == "empty" else specs.build(clf, other) if into == "used" else None
            first = snapshot(target, vals) if target is not None else None

            def do():
                if target is None:
                    return load(path, strict)
                target.readFile(path, strict)
                return target
            mode = c.pick(["op", "line", "gone", "damaged"], [6, 3, 1, 1])
            lines, data, unreadable = None, w.get(path), False
            if mode == "op":
                probe = clf.ProcessList()
                ops, _ = count_ops(ctx, w, lambda: probe.readFile(path, strict))
                f = draw_fault(ctx, ops, kinds=("open", "read", "stat") if c.flag(0.8) else None)
                w.arm(*f)
                label = shape(f, ops)
                hit = ops[f[0]]
                if f[1]["what"] == "errno" and hit[1] == path and c.flag(0.6) and hit[0] in ("open", "read"):
                    # the error stays: neither way of reading the file works
                    f[1]["sticky"] = (hit[0],)
                    f[1]["path"] = path
                    label += "+"
            elif mode == "line":
                count = inject.Lines(w=w)
                with count:
                    clf.ProcessList(path, strict)
                exc = c.pick([KeyboardInterrupt, MemoryError])
                lines = inject.Lines(c.choose(max(1, count.count)), exc, w)
                label = exc.__name__ + "@line"
            elif mode == "gone":
                w.delete(path)
                label, unreadable = "missing", True
                ctx.fault("file-missing")
            else:
                label, unreadable = "damaged", True
                if c.flag(0.5):
                    w.put(path, data[:c.choose(max(1, len(data) - 20))])
                    ctx.fault("tail-lost")
                else:
                    # what else could end up behind the document
                    text = plain(data)
                    junk = c.pick([text[-(1 + c.choose(min(len(text), 60))):].lstrip() or b">", text, b"</ProcessList>", b"x", b"\0" * 16])
                    w.put(path, gzip.compress(text + junk, 6, mtime=0) if gz else text + junk)
                    ctx.fault("junk-behind")
            ctx.log("attempt", attempt, label, into)
            if lines is not None:
                with lines:
                    got = call(do)
                if lines.fired:
                    ctx.fault(label)
                    ctx.log("at", lines.fired)
            else:
                got = call(do)
            if label.endswith("+") and w.sticky:
                unreadable = True
            w.disarm()
            w.sticky = []
            ctx.state((label, gz, len(refs), into, got[0], type(got[1]).__name__ if got[0] == "err" else ""))
            if got[0] == "ok":
                ctx.check(not unreadable, "false-success", lambda: "the load returned normally, %s" % label)
                if into != "used":
                    check_loaded(ctx, spec, built, got[1], vals, "partial-load")
                else:
                    both = {"attrs": dict(other["attrs"], **spec["attrs"]), "elements": other["elements"] + spec["elements"],
                            "nodes": other["nodes"] + spec["nodes"]}
                    d = specs.differ(specs.expect(both), specs.live_model(got[1]))
                    ctx.check(d is None, "partial-load", lambda: "loaded into a used object: " + d)
            else:
                ctx.probe("reported")
                if unreadable and target is not None:
                    now = snapshot(target, vals)
                    d = specs.differ(first[0], now[0])
                    ctx.check(d is None and first[1] == now[1], "object-changed",
                              lambda: "the file could not be read (%s), but the object changed: %s" % (label, d or "results"))
            w.put(path, data)
            resize(ctx, w)
            if got[0] == "err" and unreadable and target is not None and into == "empty" and c.flag(0.7):
                again = must(ctx, do, "retry-fails", "loading again into the same object")
                check_loaded(ctx, spec, built, again, vals, "retry-wrong")
                ctx.probe("same-object-retry")
        w.collect()
        again = must(ctx, lambda: load(path, c.flag(0.3)), "retry-fails", "loading again")
        check_loaded(ctx, spec, built, again, vals, "retry-wrong")
