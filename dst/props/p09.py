"""P09: an acknowledged LUT export is complete and holds the transform's samples."""

import inject
import luts
import math
import numpy as np
import specs
from core import Violation
from env import convertCLFtoLUT, lutFormats, lclf
from scen import DIR, active, call, clf, count_ops, draw_fault, jump_clock, machine, must, resize, save, shape

RUNS = {"quick": (2500, 60), "thorough": (60000, 1500)}
RULE = ("Seeded exports of generated transforms to every format and data layout, over earlier files and after earlier "
        "exports, with split writes, full disks, errors, interrupts and exhausted memory at a chosen system call or line; "
        "non-trivial: distinct event log.")
NEEDS_FAULT = False
STATES = "distinct (format, layout, shapers, kind of failure, earlier file, how the call ended) combinations"
REAL = ["aces.lutFormats export, aces.convertCLFtoLUT, aces.clf process and save", "Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files: in-memory disk with injected errors", "clock", "process life"]
ASSUMES = ["finite tables and float bit depths; the transform itself is the oracle for each sample, evaluated one sample at a "
           "time on a second copy of the transform",
           "the direction of the input shaper in clf exports is not judged (see DESIGN: P35)"]

TYPES = ["Matrix", "Range", "ASC_CDL", "LUT1D", "LUT3D", "Gamma", "ExposureContrast"]
LAYOUTS = {"spi1d": ["1D"], "spi3d": ["3D"], "csp": ["1D", "3D", "1D_3D_1D"], "ctl": ["1D", "3D"], "clf": ["1D_3D_1D"]}


def job(ctx, fixed=None):
    """One export: spec and parameters."""
    c = ctx.c
    fmt = c.pick(["spi1d", "spi3d", "csp", "ctl", "clf"])
    lay = c.pick(LAYOUTS[fmt])
    g = specs.Gen(c, types=TYPES, depths=["32f", "16f"], rich=False, bypass=False, dyn=False, wild=False, encodings=False,
                  maxnodes=2)
    spec = g.list()
    if specs.result_of(specs.build(clf, spec), [0.25, 0.5, 0.75])[0] == "err":
        # moncurve gamma without parameters for every channel cannot be evaluated
        spec["nodes"] = [n for n in spec["nodes"] if n["t"] != "Gamma"]
    lo = specs.dec(c, -1, 0)
    hi = lo + specs.posdec(c, 3) if c.flag(0.5) else 1.0 + specs.posdec(c, 1)
    if c.flag(0.5):
        lo, hi = 0.0, 1.0
    kinds = ["linear", "log2"] if fmt == "csp" else ["linear", "log2", None]

    def shaper(kinds):
        k = c.pick(kinds)
        a = float(-1 - c.choose(6)) if k == "log2" else lo
        return [k, a, a + 2.0 + c.choose(4) if k == "log2" else hi]
    return {"fmt": fmt, "lay": lay, "spec": spec, "n1": 2 + c.small(0, 26) if lay != "1D" or c.flag(0.93) else 280 + c.choose(400), "n3": c.pick([2, 3, 4], [4, 3, 1]),
            "nin": 2 + c.small(0, 10), "nout": 2 + c.small(0, 6), "lo": lo, "hi": hi,
            "in": shaper(kinds), "out": shaper(["linear", "log2", None])}


def describe(j):
    s = "%s %s" % (j["fmt"], j["lay"])
    if j["lay"] == "1D_3D_1D":
        s += " %s/%s" % (j["in"][0], j["out"][0])
    return s


def export(j, pl, path):
    return lutFormats.Registry.write(pl, path, j["lay"], j["n1"], j["n3"], [j["nin"], j["n3"], j["nout"]], j["lo"], j["hi"],
                                     list(j["in"]), list(j["out"]))


def lin(i, n, lo, hi):
    return float(i) / (n - 1) * (hi - lo) + lo


def bounds(s):
    if s[0] == "log2":
        return 2.0 ** s[1], 2.0 ** s[2]
    if s[0] == "linear":
        return s[1], s[2]
    return 0.0, 1.0


def forward(s, v):
    if s[0] is None:
        return v
    if v != v:
        return v
    if s[0] == "log2":
        v = math.log(max(v, 1e-300), 2) if v > 0 else -1e9
    return min(1.0, max(0.0, (v - s[1]) / (s[2] - s[1])))


def backward(s, p):
    if s[0] is None:
        return p
    v = s[1] + p * (s[2] - s[1])
    return 2.0 ** v if s[0] == "log2" else v


def grain(s):
    """How many times coarser than 1 the steps of a shaper's input are to its range."""
    return max(1.0, max(abs(s[1]), abs(s[2])) / (s[2] - s[1])) if s[0] else 1.0


def samples(j, pl):
    """What the tables of the file have to hold, computed sample by sample."""
    out = {}
    at = lambda x: [float(v) for v in pl.process(list(x))]
    if j["lay"] == "1D":
        out["table"] = [at([lin(i, j["n1"], j["lo"], j["hi"])] * 3) for i in range(j["n1"])]
        return out
    n = j["n3"]
    if j["lay"] == "3D":
        ax = [lin(i, n, j["lo"], j["hi"]) for i in range(n)]
    else:
        ax = [backward(j["in"], float(i) / (n - 1)) for i in range(n)]
    out["table"] = [at([r, g, b]) for r in ax for g in ax for b in ax]
    if j["lay"] == "1D_3D_1D":
        out["table"] = [[forward(j["out"], v) for v in row] for row in out["table"]]
        lo, hi = bounds(j["in"])
        out["inx"] = [lin(i, j["nin"], lo, hi) for i in range(j["nin"])]
        out["in"] = [forward(j["in"], v) for v in out["inx"]]
        out["out"] = None if j["out"][0] is None else [backward(j["out"], float(i) / (j["nout"] - 1)) for i in range(j["nout"])]
    return out


def near(got, want, tol, what):
    if len(got) != len(want):
        return "%s: %d values instead of %d" % (what, len(got), len(want))
    for i, (x, y) in enumerate(zip(got, want)):
        if not luts.same(x, y, tol):
            return "%s: value %d is %r instead of %r" % (what, i, x, y)
    return None


def judge(j, want, data):
    """None, or why the stored file is not the acknowledged export."""
    if data is None:
        return "there is no file"
    flat = [v for r in want["table"] for v in r]
    fmt, lay = j["fmt"], j["lay"]
    # shapers compute in 32 bits; narrow ranges amplify the rounding of their ends, and steep transforms that of the result
    wide = 3e-5 * grain(j["out"]) if lay == "1D_3D_1D" else 2e-6
    fine = 2e-6 + 2e-7 * grain(j["in"])
    try:
        if fmt == "spi1d":
            m = luts.parse_spi1d(data)
            if m["n"] != j["n1"] or m["ch"] != 3 or not m["framed"]:
                return "header %s x %s, framed %s" % (m["n"], m["ch"], m["framed"])
            return near(m["from"], [j["lo"], j["hi"]], 1e-6, "range") or near(m["values"], flat, 3e-7, "samples")
        if fmt == "spi3d":
            m = luts.parse_spi3d(data)
            if m["res"] != [j["n3"]] * 3 or not m["ordered"]:
                return "resolution %s, ordered %s" % (m["res"], m["ordered"])
            return near(m["values"], flat, 3e-7, "samples")
        if fmt == "csp":
            m = luts.parse_csp(data)
            if m["kind"] != ("1D" if lay == "1D" else "3D") or m["res"] != ([j["n1"]] if lay == "1D" else [j["n3"]] * 3):
                return "layout %s, resolution %s" % (m["kind"], m["res"])
            for x, y in m["prelut"]:
                wx, wy = ([j["lo"], j["hi"]], [0.0, 1.0]) if lay != "1D_3D_1D" else (want["inx"], want["in"])
                d = near(x, wx, 2e-6, "prelut input") or near(y, wy, fine, "prelut output")
                if d:
                    return d
            return near(m["values"], flat, wide, "samples")
        if fmt == "ctl":
            m = luts.parse_ctl(data)
            if m["kind"] != lay:
                return "layout %s" % m["kind"]
            lo, hi = ([m["min"]], [m["max"]]) if lay == "1D" else (m["min"], m["max"])
            d = near(lo, [j["lo"]] * len(lo), 1e-8, "minimum") or near(hi, [j["hi"]] * len(hi), 1e-8, "maximum")
            if d:
                return d
            if lay == "1D":
                if len(m["values"]) != 3:
                    return "%d tables" % len(m["values"])
                return near([v for r in zip(*m["values"]) for v in r], flat, 3e-7, "samples") or (
                    "table lengths" if set(map(len, m["values"])) != {j["n1"]} else None)
            n = j["n3"]
            if m["res"] != [n, n, n, 3] or len(m["values"]) != n:
                return "resolution %s" % m["res"]
            return near([v for r in m["values"] for g in r for b in g for v in b], flat, 2e-6, "samples")
        m = specs.file_model(data)
        tables = {k[1].get("name"): k for k in m[3] if k[0] in ("LUT1D", "LUT3D")}
        if "lut3d" not in tables:
            return "no 3D table"
        arr = [k for k in tables["lut3d"][3] if k[0] == "Array"][0]
        if arr[1]["dim"].split() != [str(j["n3"])] * 3 + ["3"]:
            return "dimensions %s" % arr[1]["dim"]
        d = near(arr[2][2], flat, wide, "samples")
        if d or want["out"] is None:
            return d
        if "lut1d" not in tables:
            return "no output shaper"
        arr = [k for k in tables["lut1d"][3] if k[0] == "Array"][0]
        d = near(arr[2][2], [v for x in want["out"] for v in [x] * 3], 2e-6, "output shaper")
        if d or j["in"][0] is None:
            return d
        kids = [k for k in m[3] if k[0] == "LUT1D" and k[1].get("name") not in ("lut1d",)]
        return None if kids else "no input shaper"
    except (luts.Bad, SyntaxError, ValueError, IndexError, KeyError, AttributeError) as e:
        return "it is not a complete %s file (%s: %s; %d bytes)" % (fmt, type(e).__name__, e, len(data))


def run(ctx):
    c = ctx.c
    w = machine(ctx)
    with active(w):
        jobs = []
        for k in range(1 + c.pick([0, 1], [3, 1])):
            j = job(ctx)
            path = DIR + "/%s.%s" % (c.pick(["out", "o"]), j["fmt"])
            if c.flag(0.3):
                w.put(path, b"0.5 0.5 0.5\n" * 900)
            j["via"] = c.pick(["write", "convert"], [3, 1])
            builder = c.pick([clf, lclf])
            pl = must(ctx, lambda: specs.build(builder, j["spec"]), "build-fails", "building")
            if j["via"] == "convert":
                must(ctx, lambda: save(pl, DIR + "/in.clf"), "save-fails", "saving")
                oracle = must(ctx, lambda: clf.ProcessList(DIR + "/in.clf"), "load-fails", "loading")
            else:
                oracle = specs.build(clf, j["spec"])
            want = samples(j, oracle)

            def do():
                if j["via"] == "write":
                    return export(j, pl, path)
                return convertCLFtoLUT.convertCLFtoLUT(DIR + "/in.clf", path, j["fmt"], j["lay"], j["n1"], j["n3"],
                                                       [j["nin"], j["n3"], j["nout"]], j["lo"], j["hi"], list(j["in"]),
                                                       list(j["out"]))
            label = "none"
            lines = None
            mode = c.pick(["none", "op", "full", "line"], [3, 4, 3, 1.5])
            if mode != "none":
                ops, clean = count_ops(ctx, w, do)
                if clean[0] == "err":
                    raise Violation("export-fails", "export to %s failed: %s: %s" % (
                        describe(j), type(clean[1]).__name__, clean[1]))
            if mode == "op":
                f = draw_fault(ctx, ops)
                w.arm(*f)
                label = shape(f, ops)
            elif mode == "full":
                w.full_at = c.choose(max(1, sum(n for k2, p, n in ops if k2 == "write")))
                label = "full"
            elif mode == "line":
                count = inject.Lines(w=w)
                snap = w.snapshot()
                with count:
                    call(do)
                w.collect()
                w.restore(snap)
                exc = c.pick([KeyboardInterrupt, MemoryError])
                # the last lines are those that write
                lines = inject.Lines(c.choose(max(1, count.count)) if c.flag(0.5) else max(0, count.count - 1 - c.choose(400)),
                                     exc, w)
                label = exc.__name__ + "@line"
            ctx.log("export", describe(j), label)
            if lines is not None:
                with lines:
                    got = call(do)
                if lines.fired:
                    ctx.fault(label)
                    ctx.log("at", lines.fired)
            else:
                got = call(do)
            w.disarm()
            w.sticky = []
            w.full_at = None
            ctx.state((describe(j), label, got[0], type(got[1]).__name__ if got[0] == "err" else ""))
            if mode == "none" and got[0] == "err":
                raise Violation("export-fails", "export to %s failed: %s: %s" % (
                    describe(j), type(got[1]).__name__, got[1]))
            if got[0] == "ok":
                end = c.pick(["die", "collect"])
                if end == "die":
                    w.restart()
                    ctx.fault("process-death-after-export")
                else:
                    w.collect()
                d = judge(j, want, w.get(path))
                ctx.check(d is None, "false-success" if mode != "none" else "wrong-export",
                          lambda: "export to %s returned normally after %s, but %s" % (describe(j), label, d))
            else:
                ctx.probe("reported")
                resize(ctx, w)
                must(ctx, do, "retry-fails", "the export after the fault was gone")
                before = w.get(path)
                w.collect()
                d = judge(j, want, w.get(path))
                ctx.check(d is None, "retry-wrong", lambda: "export to %s after a failed one: %s" % (describe(j), d))
            jump_clock(ctx, w)
            jobs.append((j, want, path))
        ctx.summary = [describe(j) for j, _, _ in jobs]
        # the files of all exports are still there
        last = {}
        for j, want, path in jobs:
            last[path] = (j, want)
        for path, (j, want) in sorted(last.items()):
            d = judge(j, want, w.get(path))
            ctx.check(d is None, "later-damage", lambda: "%s: %s" % (describe(j), d))
