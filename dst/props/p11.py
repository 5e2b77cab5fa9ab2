"""P11: a failed conversion leaves its output and inputs untouched."""

import json
import sys
from functools import partial

import inject
import luts
import specs
from core import Violation
from env import clf, convertCLFtoLUT, convertLUTtoCLF, convertOCIOtoCLF
from props import p09, p10
from scen import (DIR, active, call, count_ops, draw_fault, load, machine, must, plain, resize, save, shape)

RUNS = {"quick": (5000, 60), "thorough": (100000, 1500)}
RULE = ("Seeded conversions LUT to CLF, CLF to LUT and colour configuration to CLF with one damaged, missing, unreadable or "
        "unsupported input, with faults at a chosen system call or line on the input or output side, over earlier outputs and "
        "onto their own input; non-trivial: distinct event log.")
NEEDS_FAULT = False
STATES = "distinct (conversion, steps, bad input, kind of failure, earlier output, how it ended) combinations"
REAL = ["aces.convertLUTtoCLF main, aces.convertCLFtoLUT function and main, aces.convertOCIOtoCLF function and main",
        "aces.lutFormats, aces.clf", "XML, gzip, Python buffered and text I/O, numpy"]
STUB = ["PyOpenColorIO: configurations are JSON files on the simulated disk", "system calls below Python's raw files", "clock"]
ASSUMES = ["elements and missing references that lenient CLF loading passes over by design do not make an input unreadable",
           "inverse 3D and csp files are not judged (the formats' readers have no inverse)"]


class Exit(Exception):
    pass


def with_argv(main, argv):
    old = sys.argv
    sys.argv = ["prog"] + argv
    try:
        main()
    except SystemExit as e:
        raise Exit(str(e))
    finally:
        sys.argv = old


def on_copies(fn, *args):
    return fn(*[list(a) if isinstance(a, (list, tuple)) else a for a in args])


def lut_file(ctx, w, path):
    """A whole LUT file; its parsed model."""
    fmt = path.rsplit(".", 1)[1]
    data = p10.make(ctx, fmt)
    w.put(path, data)
    return luts.PARSE[fmt](data)


class Conversion(object):
    """inputs: paths; out: output path; do(); judge(data) -> None or a complaint."""

    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.inputs = []
        self.inverse = None


def lut_to_clf(ctx, w):
    c = ctx.c
    k = Conversion(ctx, w)
    fmt = c.pick(["spi1d", "spi3d", "csp"])
    src = DIR + "/in." + fmt
    m = lut_file(ctx, w, src)
    onto = c.flag(0.15)
    k.out = src if onto else DIR + "/out.clf"
    k.inputs = [src]
    k.inverse = "map" if fmt == "spi1d" and c.flag(0.2) else None
    argv = ["--lut", src, "--clf", k.out] + (["--inverse", "--inversesUseIndexMaps"] if k.inverse else [])
    k.do = partial(with_argv, convertLUTtoCLF.main, argv)
    k.what = "lut-to-clf " + fmt

    def judge(path):
        pl = load(path)
        return judge_lut(fmt, m, list(pl), [x for x in specs.live_model(pl)[3] if x[0] in specs.PROCESS], k.inverse)
    k.judge = judge
    return k


class Part(object):
    """A slice of a transform, for the judge of single files."""

    def __init__(self, nodes):
        self.nodes = nodes

    def __getitem__(self, i):
        return self.nodes[i]

    def write(self):
        pl = clf.ProcessList()
        for n in self.nodes:
            pl.addProcess(n)
        return pl.write()


def judge_lut(fmt, m, nodes, kids, inverse):
    # decimal tables are stored to nine decimals
    m = dict(m, values=[float("%.9f" % v) for v in m["values"]])
    return p10.judge(fmt, m, Part(nodes), inverse)


def clf_to_lut(ctx, w, mains=0.4):
    c = ctx.c
    k = Conversion(ctx, w)
    j = p09.job(ctx)
    src = DIR + "/in.clf"
    spec = j["spec"]
    if c.flag(0.3):
        # through a referenced file
        inner = DIR + "/ref.clf"
        save(specs.build(clf, spec), inner, c.flag(0.3))
        spec = {"attrs": {"id": "outer"}, "elements": [], "nodes": [
            {"t": "Reference", "in": "32f", "out": "32f", "id": "r", "name": "r", "desc": [], "dyn": [], "bypass": False,
             "path": inner, "base": "", "alias": ""}]}
        k.inputs.append(inner)
    save(specs.build(clf, spec), src, c.flag(0.3))
    k.inputs.append(src)
    onto = j["fmt"] == "clf" and c.flag(0.5)
    k.out = src if onto else DIR + "/out." + j["fmt"]
    want = p09.samples(j, must(ctx, lambda: load(src), "load-fails", "loading"))
    if c.flag(mains) and j["lay"] != "3D":
        argv = ["-c", src, "-l", k.out, "-f", j["fmt"], "--inputMinValue=%r" % j["lo"], "--inputMaxValue=%r" % j["hi"],
                "--lutResolution1d", str(j["n1"]), "--generate" + j["lay"].replace("_", "").lower(),
                "--lutResolution1d3d1d", str(j["nin"]), str(j["n3"]), str(j["nout"])]
        for o in ("in", "out"):
            if j[o][0] is not None:
                argv += ["--shaper" + o.capitalize(), j[o][0], repr(j[o][1]), repr(j[o][2])]
        k.do = partial(with_argv, convertCLFtoLUT.main, argv)
    else:
        k.do = partial(on_copies, convertCLFtoLUT.convertCLFtoLUT, src, k.out, j["fmt"], j["lay"], j["n1"], j["n3"],
                       [j["nin"], j["n3"], j["nout"]], j["lo"], j["hi"], j["in"], j["out"])
    k.what = "clf-to-lut " + p09.describe(j)
    k.judge = lambda path: p09.judge(j, want, w.get(path))
    return k


def transform(ctx, w, k, depth, unsupported):
    """JSON of a transform and the steps it stands for: ('lut', fmt, model, inverse), ('matrix', ..) or ('log', style)"""
    c = ctx.c
    kind = c.pick(["file", "matrix", "log", "group"], [5, 3, 2, 2 if depth else 0])
    if unsupported and kind != "group":
        kind = c.pick(["cdl", "inverse-matrix", "log-base", "format"])
        k.bad = kind
        if kind == "cdl":
            return {"kind": "cdl"}, []
        if kind == "inverse-matrix":
            return {"kind": "matrix", "matrix": [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1], "direction": "inverse"}, []
        if kind == "log-base":
            return {"kind": "log", "base": 7}, []
        w.put(DIR + "/luts/x.lut9", b"whatever\n")
        return {"kind": "file", "src": "x.lut9"}, []
    if kind == "file":
        fmt = c.pick(["spi1d", "spi3d", "csp"])
        name = "f%d.%s" % (len(k.inputs), fmt)
        path = DIR + "/luts/" + name
        m = lut_file(ctx, w, path)
        k.inputs.append(path)
        inverse = fmt == "spi1d" and c.flag(0.25)
        d = {"kind": "file", "src": name, "interpolation": c.pick(["linear", "linear", "tetrahedral"]) if fmt == "spi3d" else "linear"}
        if inverse:
            d["direction"] = "inverse"
        return d, [("lut", fmt, m, "map" if inverse else None)]
    if kind == "matrix":
        a = [specs.dec(c, -1, 1) for i in range(9)]
        off = [specs.dec(c, -1, 1) if c.flag(0.5) else 0.0 for i in range(3)]
        mat = a[0:3] + [0.0] + a[3:6] + [0.0] + a[6:9] + [0.0] + [0.0, 0.0, 0.0, 1.0]
        return {"kind": "matrix", "matrix": mat, "offset": off + [0.0]}, [("matrix", a, off)]
    if kind == "log":
        base, fwd = c.pick([2, 10]), c.flag(0.5)
        return {"kind": "log", "base": base, "direction": "forward" if fwd else "inverse"}, [
            ("log", ("log%d" if fwd else "antiLog%d") % base)]
    kids, steps = [], []
    n = 1 + c.choose(3)
    where = c.choose(n) if unsupported else -1
    for i in range(n):
        d, s = transform(ctx, w, k, depth - 1, i == where)
        kids.append(d)
        steps += s
    return {"kind": "group", "children": kids}, steps


def judge_steps(steps, path):
    pl = load(path)
    nodes = list(pl)
    kids = [x for x in specs.live_model(pl)[3] if x[0] in specs.PROCESS]
    i = 0
    for s in steps:
        if i >= len(nodes):
            return "the chain ends before %s" % (s[:2],)
        if s[0] == "matrix":
            a, off = s[1], s[2]
            if kids[i][0] != "Matrix":
                return "%s instead of a matrix" % kids[i][0]
            got = nodes[i].process([0.25, -0.5, 0.75])
            v = [0.25, -0.5, 0.75]
            want = [sum(a[3 * r + q] * v[q] for q in range(3)) + off[r] for r in range(3)]
            d = p10.near([float(x) for x in got], want, 1e-5, "matrix")
            if d:
                return d
            i += 1
        elif s[0] == "log":
            if kids[i][0] != "Log" or kids[i][1].get("style") != s[1]:
                return "%s %s instead of %s" % (kids[i][0], kids[i][1].get("style"), s[1])
            i += 1
        else:
            fmt, m, inverse = s[1:]
            if fmt == "spi1d":
                n = 1 + (m["from"] != (0.0, 1.0))
            elif fmt == "spi3d":
                n = 1
            else:
                n = 2 + (max(len(x) for x, y in m["prelut"]) > 2)
            if len(nodes) < i + n:
                return "the chain ends within a %s file" % fmt
            d = judge_lut(fmt, m, nodes[i:i + n], kids[i:i + n], inverse)
            if d:
                return "%s file: %s" % (fmt, d)
            i += n
    if i != len(nodes):
        return "%d nodes instead of %d" % (len(nodes), i)
    return None


def ocio_to_clf(ctx, w, unsupported, mains=0.4):
    c = ctx.c
    k = Conversion(ctx, w)
    k.bad = None
    w.mkdir(DIR + "/luts")
    spaces, src, dst, steps = {}, [], [], []
    n = 1 + c.choose(3)
    where = c.choose(n) if unsupported else -1
    for i in range(n):
        name = "cs%d" % i
        d, s = transform(ctx, w, k, 2, i == where)
        to = i < n - 1 or c.flag(0.5)
        spaces[name] = {"to" if to else "from": d}
        (src if to else dst).append(name)
        steps += s
    config = DIR + "/config.ocio"
    w.put(config, json.dumps({"search": "luts", "spaces": spaces}, sort_keys=True).encode())
    k.inputs.append(config)
    k.out = DIR + "/out.clf"
    if c.flag(0.1) and len(k.inputs) > 1:
        k.out = k.inputs[0]
    if c.flag(mains):
        argv = ["-c", config, "-o", k.out, "--inversesUseIndexMaps"]
        for x in src:
            argv += ["-s", x]
        for x in dst:
            argv += ["-d", x]
        k.do = partial(with_argv, convertOCIOtoCLF.main, argv)
    else:
        k.do = partial(on_copies, convertOCIOtoCLF.convertOCIOtoCLF, config, src, dst, k.out, True, False)
    k.what = "ocio-to-clf %s" % ",".join(s[0] if s[0] != "lut" else s[1] + (" inverse" if s[3] else "") for s in steps)
    k.judge = lambda path: judge_steps(steps, path)
    k.steps = steps
    return k


def damage(ctx, w, k):
    """Makes one input incomplete or unreadable. Returns what was done, or None."""
    c = ctx.c
    path = c.pick(k.inputs)
    data = w.get(path)
    ext = path.rsplit(".", 1)[1]
    kind = c.pick(["cut", "gone", "garbage", "empty", "hole"])
    if kind == "gone":
        if path.endswith("ref.clf"):
            return None, path           # passed over by design
        w.delete(path)
    elif kind == "empty":
        w.put(path, b"")
    elif kind == "garbage":
        w.put(path, b"\x00\x01garbage" * 20)
    elif kind == "hole":
        n = c.pick([16, 64])
        b = c.choose((len(data) + n - 1) // n)
        hi = min(len(data), (b + 1) * n)
        w.put(path, data[:b * n] + b"\0" * (hi - b * n) + data[hi:])
    else:
        w.put(path, data[:c.choose(len(data))])
    now = w.get(path)
    if now is not None:
        # still a whole file?
        if ext in luts.PARSE:
            try:
                luts.PARSE[ext](now)
                return None, path
            except (luts.Bad, IndexError, ValueError):
                if p10.missing(ext, now) is not True:
                    return None, path
        elif ext == "clf":
            from scen import valid_content
            if valid_content(now) is not None:
                return None, path
        else:
            try:
                json.loads(now.decode())
                return None, path
            except ValueError:
                pass
    ctx.fault("input-" + kind)
    return "%s %s" % (kind, ext), path


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    with active(w):
        which = c.choose(3)
        fault = c.pick(["none", "input", "op", "line", "full"], [2, 4, 4, 1.5, 1.5])
        unsupported = which == 2 and fault == "input" and c.flag(0.4)
        k = lut_to_clf(ctx, w) if which == 0 else clf_to_lut(ctx, w) if which == 1 else ocio_to_clf(ctx, w, unsupported)
        ctx.summary = k.what
        if k.out not in k.inputs and c.flag(0.7):
            w.put(k.out, [b"earlier output\n" * 30, b"<ProcessList/>", b""][c.choose(3)])
        reading = False
        label, lines, bad, whole = "none", None, None, {p: w.get(p) for p in k.inputs}
        if fault == "input":
            if unsupported and k.bad:
                bad = k.bad
                ctx.fault("unsupported-step")
            else:
                bad, path = damage(ctx, w, k)
                if bad is None:
                    w.put(path, whole[path])
            label = "bad input: %s" % bad
        elif fault == "op":
            ops, clean = count_ops(ctx, w, k.do)
            if clean[0] == "err":
                raise Violation("conversion-fails", "%s failed: %s: %s" % (k.what, type(clean[1]).__name__, clean[1]))
            f = draw_fault(ctx, ops)
            w.arm(*f)
            label = shape(f, ops)
            # a read that fails before anything is written
            reading = ops[f[0]][0] in ("read", "stat") and ops[f[0]][1] in k.inputs and not any(
                o[0] in ("write", "rename") for o in ops[:f[0]])
        elif fault == "full":
            ops, clean = count_ops(ctx, w, k.do)
            w.full_at = c.choose(max(1, sum(n for a, p, n in ops if a == "write")))
            label = "full"
        elif fault == "line":
            snap = w.snapshot()
            count = inject.Lines(w=w)
            with count:
                call(k.do)
            w.collect()
            w.restore(snap)
            exc = c.pick([KeyboardInterrupt, MemoryError])
            lines = inject.Lines(c.choose(max(1, count.count)), exc, w)
            label = exc.__name__ + "@line"
        before = {p: w.get(p) for p in list(k.inputs) + [k.out]}
        first = len(w.opened)
        ctx.log("convert", k.what, label)
        if lines is not None:
            with lines:
                got = call(k.do)
            if lines.fired:
                ctx.fault(label)
                ctx.log("at", lines.fired)
        else:
            got = call(k.do)
        w.disarm()
        w.sticky = []
        w.full_at = None
        w.collect()
        written = any(p == k.out and m == "w" for p, m in w.opened[first:])
        ctx.log(got[0], type(got[1]).__name__, written)
        ctx.state((k.what, label, before[k.out] is None, got[0], type(got[1]).__name__))
        for p in k.inputs:
            if p != k.out:
                ctx.check(w.get(p) == before[p], "input-changed", lambda: "%s (%s) changed its input %s" % (k.what, label, p))
        if bad is not None:
            ctx.probe("bad-input")
            ctx.check(w.get(k.out) == before[k.out], "output-touched",
                      lambda: "%s with %s: the output %s" % (k.what, bad, "was created" if before[k.out] is None else
                                                             "file was changed"))
        elif got[0] == "ok":
            d = k.judge(k.out) if w.get(k.out) is not None else "there is no output"
            ctx.check(d is None, "false-success" if label != "none" else "wrong-output",
                      lambda: "%s returned normally after %s, but %s" % (k.what, label, d))
        else:
            ctx.check(label not in ("none", "bad input: None"), "conversion-fails",
                      lambda: "%s failed: %s: %s" % (k.what, type(got[1]).__name__, got[1]))
            if not written:
                ctx.check(w.get(k.out) == before[k.out], "output-touched",
                          lambda: "%s failed (%s) and changed its output" % (k.what, label))
            elif reading or (label.endswith("@open") and len([1 for p, m in w.opened[first:] if m == "r"]) < 1):
                raise Violation("output-touched", "%s could not read its input (%s) but opened its output" % (k.what, label))
        # with the cause gone the conversion works, onto itself as well
        if got[0] == "err" or bad is not None:
            if unsupported and bad:
                return
            for p, data in whole.items():
                w.put(p, data)
            resize(ctx, w)
            must(ctx, k.do, "retry-fails", "%s after the cause was gone" % k.what)
            w.collect()
            d = k.judge(k.out)
            ctx.check(d is None, "retry-wrong", lambda: "%s after a failed one: %s" % (k.what, d))
