"""P10: a LUT file with missing samples is never imported."""

import inject
import luts
import specs
from env import clf, convertCLFtoLUT, lutFormats
from scen import DIR, active, call, count_ops, draw_fault, machine, must, resize, shape

RUNS = {"quick": (20000, 60), "thorough": (200000, 1500)}
RULE = ("Seeded imports of spi1d, spi3d and csp files that were cut off by a crash, power loss or full disk during an export, "
        "lost their tail, blocks or lines, or whose reading fails or is interrupted, and of whole files; non-trivial: distinct "
        "event log.")
STATES = "distinct (format, layout, origin, damage, missing samples, how the import ended) combinations"
REAL = ["aces.lutFormats import and export", "Python buffered and text I/O", "numpy"]
STUB = ["system calls below Python's raw files: in-memory disk with injected errors, crashes and power loss"]
ASSUMES = ["an independent parser of the three formats decides which samples the stored bytes hold",
           "a number whose last digits were lost is still a number: what counts is what the file says"]
NEEDS_FAULT = False


def value(c):
    k = c.choose(12)
    if k == 0:
        return 0.0
    if k == 2:
        return float(c.choose(4))
    if k == 1:
        return c.pick([1e-7, -2.5e-5, 123456.789, 65504.0])
    return specs.dec(c, -1, 2)


def prelut(c):
    n = c.pick([2, 3, 4, 6], [4, 1, 2, 1])
    lo = specs.dec(c, -1, 0)
    out = []
    width = specs.posdec(c, 2)
    for ch in range(3):
        cuts = sorted(set(c.choose(63) + 1 for _ in range(n - 2)))
        free = (k for k in range(1, 64) if k not in cuts)
        while len(cuts) < n - 2:
            cuts = sorted(cuts + [next(free)])
        x = [lo] + [lo + width * k / 64.0 for k in cuts] + [lo + width]
        y = sorted(c.choose(513) / 512.0 for _ in range(n))
        out.append((x, y))
    return out


def sizes(c):
    n = c.pick([2, 3, 4], [3, 2, 1])
    if c.flag(0.7):
        return [n] * 3
    return [2 + c.choose(3) for _ in range(3)]


def make(ctx, fmt):
    """Bytes of a whole file."""
    c = ctx.c
    if fmt == "spi1d":
        n, ch = 2 + c.small(0, 30), c.pick([3, 1])
        frm = (0.0, 1.0) if c.flag(0.5) else (specs.dec(c, -1, 0), 1.0 + specs.posdec(c, 2))
        rows = [[value(c) for _ in range(ch)] for i in range(n)]
        return luts.write_spi1d(frm, rows)
    if fmt == "spi3d":
        res = sizes(c)
        rows = [[value(c) for _ in range(3)] for i in range(res[0] * res[1] * res[2])]
        order = None
        if c.flag(0.2):
            order = [(r * res[1] + g) * res[2] + b for b in range(res[2]) for g in range(res[1]) for r in range(res[0])]
        return luts.write_spi3d(res, rows, order)
    kind = c.pick(["1D", "3D"])
    res = [2 + c.small(0, 20)] if kind == "1D" else sizes(c)
    count = res[0] if kind == "1D" else res[0] * res[1] * res[2]
    rows = [[value(c) for _ in range(3)] for i in range(count)]
    if c.flag(0.1):
        # first entries as other tools write them: 0 0 0, 1 1 1
        rows[0] = [float(c.choose(3))] * 3
    gap = c.pick([[""], [], ["", ""], ["", "", " "]], [5, 1, 1, 1])
    return luts.write_csp(kind, prelut(c), res, rows, [["made by hand"], []][c.choose(2)], gap)


def exported(ctx, w, fmt, path, fault):
    """The file the code under test leaves when its export is struck by a fault."""
    c = ctx.c
    pl = specs.build(clf, specs.Gen(c, types=["Matrix", "ASC_CDL"], depths=["32f"], rich=False, bypass=False, dyn=False,
                                    encodings=False, maxnodes=1).list())
    lay = {"spi1d": "1D", "spi3d": "3D"}.get(fmt) or c.pick(["1D", "3D", "1D_3D_1D"])
    n1, n3 = 2 + c.small(0, 40), c.pick([2, 3], [2, 1])
    do = lambda: lutFormats.Registry.write(pl, path, lay, n1, n3, [2 + c0, n3, 2], 0.0, 1.0)
    c0 = c.choose(5)
    if fault == "none":
        must(ctx, do, "export-fails", "exporting")
        w.collect()
        return
    ops, _ = count_ops(ctx, w, do)
    total = sum(n for k, p, n in ops if k == "write")
    if fault == "full":
        w.full_at = c.choose(max(1, total))
        call(do)
        w.full_at = None
        w.collect()
    elif fault == "crash":
        f = draw_fault(ctx, ops, errnos=False, raises=False, crash=True, kinds=("write", "close"))
        w.arm(*f)
        try:
            do()
        except BaseException as e:
            if type(e).__name__ != "SimCrash":
                raise
        w.restart()
    else:
        must(ctx, do, "export-fails", "exporting")
        w.power_loss(c)
    w.disarm()


def damage(ctx, data):
    c = ctx.c
    kind = c.pick(["tail", "zeros", "range", "lines", "token", "twice"], [4, 2, 2, 2, 1, 1])
    if not data:
        return data, kind
    if kind == "tail":
        data = data[:c.choose(len(data))]
        ctx.fault("tail-lost")
    elif kind == "zeros":
        size = c.pick([16, 64, 512])
        b = c.choose((len(data) + size - 1) // size)
        lo, hi = b * size, min(len(data), (b + 1) * size)
        data = data[:lo] + b"\0" * (hi - lo) + data[hi:]
        ctx.fault("block-lost")
    elif kind == "range":
        a = c.choose(len(data))
        data = data[:a] + data[a + 1 + c.small(0, 200):]
        ctx.fault("bytes-missing")
    else:
        lines = data.decode("latin-1").split("\n")
        i = c.choose(len(lines))
        if kind == "lines":
            del lines[i:i + 1 + c.small(0, 3)]
            ctx.fault("lines-missing")
        elif kind == "twice":
            # a line is there twice in place of its neighbour
            if i + 1 < len(lines) and lines[i + 1].strip():
                lines[i + 1] = lines[i]
            ctx.fault("line-replaced")
        else:
            t = lines[i].split(" ")
            if len(t) > 1:
                del t[c.choose(len(t))]
            lines[i] = " ".join(t)
            ctx.fault("number-missing")
        data = "\n".join(lines).encode("latin-1")
    return data, kind


def missing(fmt, data):
    """True: the bytes lack samples the header announces (or have no usable header)."""
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return None

    def number(t):
        try:
            float(t)
            return True
        except ValueError:
            return False
    lines = [x.split() for x in text.splitlines()]
    try:
        if fmt == "spi1d":
            n = [int(x[1]) for x in lines if x and x[0] == "Length"]
            ch = [int(x[1]) for x in lines if x and x[0] == "Components"]
            if not n or not ch:
                return True
            have = sum(number(t) for x in lines if x and x[0] not in ("Length", "Components", "Version", "From") for t in x)
            return have < n[-1] * ch[-1]
        if fmt == "spi3d":
            res = [int(x) for x in lines[2]]
            if res[0] * res[1] * res[2] > len(lines):
                return True
            want = set((str(r), str(g), str(b)) for r in range(res[0]) for g in range(res[1]) for b in range(res[2]))
            have = set(tuple(x[:3]) for x in lines[3:] if len(x) == 6 and all(map(number, x)))
            return not want <= have or not want
        # csp: the resolution is the line after the three preluts
        i = next(k for k, x in enumerate(lines) if x == ["END", "METADATA"])
        rest = [x for x in lines[i + 1:] if x and x != ["END", "METADATA"]]
        for k in range(3):
            n = int(rest[3 * k][0])
            if len(rest[3 * k + 1]) < n or len(rest[3 * k + 2]) < n:
                return True
        want = 1
        for x in rest[9]:
            want *= int(x)
        return sum(len(x) == 3 and all(map(number, x)) for x in rest[10:]) < want or want < 1
    except (ValueError, IndexError, StopIteration):
        return True


def piecewise(x, y, v):
    for k in range(len(x) - 1):
        if v <= x[k + 1] or k == len(x) - 2:
            return y[k] + (v - x[k]) / (x[k + 1] - x[k]) * (y[k + 1] - y[k])


def nodes_of(pl):
    return [k for k in specs.live_model(pl)[3] if k[0] in specs.PROCESS]


def near(got, want, tol, what):
    if len(got) != len(want):
        return "%s: %d values instead of %d" % (what, len(got), len(want))
    for i, (x, y) in enumerate(zip(got, want)):
        if not luts.same(x, y, tol):
            return "%s: value %d is %r instead of %r" % (what, i, x, y)
    return None


def range_of(node):
    return [next((k[2][1][0] for k in node[3] if k[0] == t), None) for t in ("minInValue", "maxInValue", "minOutValue", "maxOutValue")]


def judge(fmt, m, pl, inverse):
    """None, or how the imported transform differs from the parsed file m."""
    kids = nodes_of(pl)
    tags = [k[0] for k in kids]
    if fmt == "spi1d" and inverse:
        if "LUT1D" not in tags:
            return "nodes %s" % tags
        if inverse != "map":
            return None
        k = tags.index("LUT1D")
        maps = [x[2][1] for x in kids[k][3] if x[0] == "IndexMap"]
        for c in range(m["ch"]):
            d = near([p[0] for p in maps[c]], m["values"][c::m["ch"]], 2e-7, "index map %d" % c)
            if d:
                return d
        return None
    if fmt == "spi1d":
        want = ["LUT1D"] if m["from"] == (0.0, 1.0) else ["Range", "LUT1D"]
        if tags != want:
            return "nodes %s instead of %s" % (tags, want)
        if len(tags) == 2:
            d = near(range_of(kids[0]), [m["from"][0], m["from"][1], 0.0, 1.0], 1e-9, "range")
            if d:
                return d
        return near([float(v) for v in pl[len(tags) - 1].getLUTValues()], m["values"], 2e-7, "samples")
    if fmt == "spi3d":
        if tags != ["LUT3D"]:
            return "nodes %s" % tags
        return near([float(v) for v in pl[0].getLUTValues()], m["values"], 2e-7, "samples")
    n = max(len(x) for x, y in m["prelut"])
    want = ["Range"] + ["LUT1D"] * (n > 2) + ["LUT1D" if m["kind"] == "1D" else "LUT3D"]
    if tags != want:
        return "nodes %s instead of %s" % (tags, want)
    lo, hi = m["prelut"][0][0][0], m["prelut"][0][0][-1]
    if all(x[0] == lo and x[-1] == hi for x, y in m["prelut"]) and hi > lo:
        d = near(range_of(kids[0]), [lo, hi, 0.0, 1.0], 1e-9, "range")
        if d:
            return d
        if n > 2 and all(len(x) == n and all(p < q for p, q in zip(x, x[1:])) for x, y in m["prelut"]):
            got = [float(v) for v in pl[1].getLUTValues()]
            k = len(got) // 3
            exp = [piecewise(x, y, lo + (hi - lo) * i / (k - 1.0)) for i in range(k) for x, y in m["prelut"]]
            d = near(got, exp, 2e-5, "prelut")
            if d:
                return d
    return near([float(v) for v in pl[len(tags) - 1].getLUTValues()], m["values"], 2e-7, "samples")


def run(ctx):
    w = machine(ctx)
    with active(w):
        # files take each other's place
        last = None
        for k in range(ctx.c.pick([1, 2, 3], [6, 2, 1])):
            last = one(ctx, w, ctx.c.flag(0.3), last)


def digit(c, data):
    """The file with one digit changed."""
    at = [k for k, x in enumerate(data) if 48 <= x < 58]
    if not at:
        return data
    k = at[c.choose(len(at))]
    return data[:k] + b"%d" % c.choose(10) + data[k + 1:]


def one(ctx, w, keep_time, last):
    c = ctx.c
    edit = last is not None and c.flag(0.4)
    fmt = last[0] if edit else c.pick(["spi1d", "spi3d", "csp"])
    path = DIR + "/in." + fmt
    if c.flag(0.25):
        w.put(path, make(ctx, fmt))
    origin = "edited" if edit else c.pick(["made", "exported", "crash", "full", "power"], [5, 1, 1, 1, 1])
    if edit:
        data = digit(c, last[1])
    elif origin == "made":
        data = make(ctx, fmt)
    else:
        exported(ctx, w, fmt, path, "none" if origin == "exported" else origin)
        data = w.get(path) or b""
    hurt = "none"
    if origin in ("made", "exported") and c.flag(0.7):
        data, hurt = damage(ctx, data)
    w.put(path, data, keep_time=keep_time)
    try:
        m = luts.PARSE[fmt](data)
    except (luts.Bad, IndexError, ValueError):
        m = None
    lacks = missing(fmt, data) if m is None else False
    inverse = c.pick([None, "map", "resampled"], [6, 1, 1]) if fmt == "spi1d" else None
    interp = "linear"
    do = lambda: lutFormats.Registry.read(path, bool(inverse), interp, inverse == "map", False)
    ctx.summary = [fmt, origin, hurt, lacks, inverse]
    ctx.log("import", fmt, origin, hurt, lacks, inverse)
    label, lines = "none", None
    mode = c.pick(["none", "op", "line"], [5, 2, 1])
    if mode == "op":
        ops, _ = count_ops(ctx, w, do)
        f = draw_fault(ctx, ops, kinds=("open", "read"))
        if f is not None:
            w.arm(*f)
            label = shape(f, ops)
    elif mode == "line":
        count = inject.Lines(w=w)
        with count:
            call(do)
        w.collect()
        exc = c.pick([KeyboardInterrupt, MemoryError])
        lines = inject.Lines(c.choose(max(1, count.count)), exc, w)
        label = exc.__name__ + "@line"
    for attempt in range(2):
        if lines is not None:
            with lines:
                got = call(do)
            if lines.fired:
                ctx.fault(label)
                ctx.log("at", lines.fired)
            lines = None
        else:
            got = call(do)
        w.disarm()
        w.sticky = []
        ctx.log(got[0], type(got[1]).__name__)
        ctx.state((fmt, origin, hurt, lacks, inverse, label, got[0], type(got[1]).__name__))
        if got[0] == "ok" and got[1] is not None:
            ctx.check(lacks is not True, "incomplete-import",
                      lambda: "a %s file (%s, %s) that lacks samples was imported: %r..." % (fmt, origin, hurt, data[-160:]))
            if m is not None:
                d = judge(fmt, m, got[1], inverse)
                ctx.check(d is None, "wrong-import", lambda: "%s file (%s, %s, %s): %s" % (fmt, origin, hurt, label, d))
        elif got[0] == "ok":
            ctx.check(m is None or hurt != "none", "not-imported", "a whole %s file was not imported" % fmt)
        else:
            ctx.probe("reported")
            ctx.check(m is None or label != "none" or hurt != "none" or origin not in ("made", "exported") or
                      inverse == "resampled", "whole-file-refused",
                      lambda: "a whole %s file was refused: %s: %s" % (fmt, type(got[1]).__name__, got[1]))
        if label == "none":
            break
        label = "none"
        resize(ctx, w)
    ctx.check(w.get(path) == data, "input-changed", "the import changed its file")
    return fmt, data
