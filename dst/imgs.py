"""Images, transforms and the reference for the filter, shared by P01 and P02."""

import array
import sys

import numpy as np

import simoiio
import simpool
import specs
from core import Violation
from env import clf, filt
from scen import DIR, active, load, save

BITS = {"8i": 8, "10i": 10, "12i": 12, "16i": 16, "16f": 16, "32f": 32}
STORED = {"8i": "uint8", "10i": "uint16", "12i": "uint16", "16i": "uint16", "16f": "half", "32f": "float"}
SHIFT = {"10i": 6, "12i": 4}
TYPES = ["Matrix", "Range", "LUT1D", "LUT3D", "ASC_CDL", "ExposureContrast", "Gamma", "Log", "Group"]
META = [("Artist", "string", "me \u00e9"), ("Orientation", "int", 1), ("PixelAspectRatio", "float", 1.5),
        ("DateTime", "string", "2015:01:01"), ("compression", "string", "zip")]


class Job(object):
    pass


def make_image(ctx, rows=None):
    """An input image and the colours it stands for: (image, bit depth, values)."""
    c = ctx.c
    kind = c.pick(["32f", "16f", "8i", "16i", "10i", "12i"])
    ch = c.pick([3, 4, 1, 5, 2], [8, 4, 1, 0.7, 0.5])
    size = c.pick(["small", "rows", "tall", "wide"], [3, 1, 0.04, 0.1])
    h = rows or (60 + c.choose(240) if size == "tall" else 1 + c.choose(24 if size == "rows" else 6))
    wd = 1 if size == "tall" else 8 + c.choose(40) if size == "wide" else c.pick([1, 2, 3, 4], [3, 3, 1, 1])
    n = wd * h * ch
    flat = c.pick([0, 1, 2], [8, 1, 1])         # 1: one colour per row, 2: one colour
    if flat:
        n = ch * (h if flat == 1 else 1)
    if kind in specs.INT:
        top = specs.INT[kind]
        vals = [c.pick([c.choose(top + 1), 0, top], [6, 1, 1]) for i in range(n)]
        data = [v << SHIFT.get(kind, 0) for v in vals]
    elif kind == "16f":
        vals = [c.choose(2048) / 512.0 - 1.0 for i in range(n)]
        data = np.array(vals, np.float16).view(np.uint16).tolist()
    else:
        vals = [c.choose(4096) / 1024.0 - 1.0 for i in range(n)]
        data = vals
    if flat:
        spread = lambda x: [x[(q // (wd * ch) * ch if flat == 1 else 0) + q % ch] for q in range(wd * h * ch)]
        vals, data = spread(vals), spread(data)
    if h * wd > 1 and c.flag(0.15):
        vals, data = resemble(c, kind, wd, h, ch, vals, data)
    attribs = [m for m in META if c.flag(0.3)]
    if kind in SHIFT or c.flag(0.3):
        attribs.insert(c.choose(len(attribs) + 1), ("oiio:BitsPerSample", "int", BITS[kind]))
    names = ["R", "G", "B", "A", "Z"][:ch] if c.flag(0.8) else ["c%d" % i for i in range(ch)]
    st = STORED[kind]
    img = simoiio.Image(st, wd, h, ch, names, attribs, array.array(simoiio.CODES[st], data))
    img.finished = True
    return img, kind, vals


def resemble(c, kind, wd, h, ch, vals, data):
    """Rows or pixels that differ little from their neighbours."""
    line = wd * ch
    vals, data = list(vals), list(data)
    if kind == "32f" and wd > 1 and c.flag(0.5):
        # all pixels of a row within a few hundredths of a percent, bright or dark
        dark = c.flag(0.5)
        for r in range(h):
            for q in range(line):
                v = vals[r * line + q % ch]
                vals[r * line + q] = (v / 4096.0 if dark else v) + c.choose(8) / float(1 << 17)
        return vals, list(vals)
    # rows with the samples of the one before, two of them exchanged
    for r in range(1, h):
        if c.flag(0.7):
            a, b = (c.choose(line), c.choose(line)) if line < 4 or c.flag(0.4) else (
                1 + c.choose(line - 2), 1 + c.choose(line - 2))
            for x in (vals, data):
                x[r * line:(r + 1) * line] = x[(r - 1) * line:r * line]
                x[r * line + a], x[r * line + b] = x[r * line + b], x[r * line + a]
    return vals, data


def make_transform(ctx, out, ch):
    """A transform whose results fit the output."""
    c = ctx.c
    while True:
        depths = c.pick([specs.FLOATS, specs.DEPTHS])
        spec = specs.Gen(c, types=TYPES, depths=depths, rich=False, wild=False, encodings=False, maxnodes=3,
                         groups=1).list()
        pl = specs.build(clf, spec)
        d = pl.getOutBitDepth() or "32f"
        if out in specs.INT:
            r = clf.Range(d, d, "clamp", "clamp", style="clamp")
            top = specs.INT.get(d, 1.0)
            r.setMinInValue(0.0)
            r.setMinOutValue(0.0)
            r.setMaxInValue(top)
            r.setMaxOutValue(top)
            pl.addProcess(r)
        elif not len(pl):
            pl.addProcess(clf.Range("32f", "32f", "r", "r"))
        return spec, pl


def make_job(ctx, w, rows=None, like=None, n=0):
    """like: an earlier job of this process, whose image this one may filter again."""
    c = ctx.c
    j = Job()
    if like is not None and c.flag(0.6):
        i, j.kind, vals = like.original
        j.img = simoiio.Image(i.basetype, i.width, i.height, i.channels, i.names, i.attribs, array.array(
            simoiio.CODES[i.basetype], i.data))
    else:
        j.img, j.kind, vals = make_image(ctx, rows)
    i = j.img
    j.original = (simoiio.Image(i.basetype, i.width, i.height, i.channels, i.names, i.attribs, array.array(
        simoiio.CODES[i.basetype], i.data)), j.kind, vals)
    j.src = DIR + ("/in%d.img" % n if n and c.flag(0.5) else "/in.img")
    j.dst = j.src if c.flag(0.08) else DIR + ("/out%d.img" % n if n and c.flag(0.5) else "/out.img")
    j.out = c.pick([None, c.pick(sorted(BITS))])
    j.outdepth = j.out or j.kind
    j.spec, j.pl = make_transform(ctx, j.outdepth, j.img.channels)
    j.workers = c.pick([1, 2, 3, 4, 6, 8, 12], [3, 5, 4, 2, 1, 1, 0.3])
    j.compression = c.pick([None, "piz"], [3, 1])
    j.quality = c.pick([0, 90], [3, 1])
    j.verbose = c.flag(0.05)
    j.through_main = c.flag(0.15)
    with active(w):
        simoiio.images()[j.src] = j.img
        if j.through_main:
            save(j.pl, DIR + "/f.clf", c.flag(0.3))
            j.pl = load(DIR + "/f.clf")
            j.verbose = False
        j.want = reference(j, vals)
    j.before = (j.img.data.tobytes(), list(j.img.attribs))
    ctx.summary = [j.kind, j.outdepth, j.img.width, j.img.height, j.img.channels, j.workers, specs.describe(j.spec)]
    ctx.log("job", *ctx.summary)
    return j


def run_job(j):
    if j.through_main:
        argv = ["-i", j.src, "-o", j.dst, "-c", DIR + "/f.clf", "-m", str(j.workers), "--quality", str(j.quality)]
        if j.out:
            argv += ["--outputBitDepth", j.out]
        if j.compression:
            argv += ["--compression", j.compression]
        old = sys.argv
        sys.argv = ["prog"] + argv
        try:
            return filt.main()
        finally:
            sys.argv = old
    return filt.filterImageWithCLF(j.src, j.dst, j.pl, j.verbose, outBitDepth=j.out, multithreaded=j.workers,
                                   compression=j.compression, compressionQuality=j.quality)


def convert(a, b, v):
    return v / specs.INT.get(a, 1.0) * specs.INT.get(b, 1.0)


def reference(j, vals):
    """What the stored samples have to be, computed pixel by pixel, or None if that raises.
    The bit depth conversions of the oracle are checked against plain arithmetic."""
    a, b, img = j.pl.getInBitDepth(), j.pl.getOutBitDepth(), j.img
    out = []
    rin = clf.Range(j.kind, a) if a != j.kind else None
    rout = clf.Range(b, j.outdepth) if b != j.outdepth else None
    n = img.channels
    try:
        for i in range(0, len(vals), n):
            p = np.array(vals[i:i + n], np.float32)
            if rin is not None:
                q = p.tolist()
                p = np.array(rin.process(p), np.float32)
                agree(q, p.tolist(), j.kind, a)
            p = np.array(j.pl.process(p, n), np.float32)
            if rout is not None:
                q = p.tolist()
                p = np.array(rout.process(p), np.float32)
                agree(q, p.tolist(), b, j.outdepth)
            out += p.tolist()
        if j.outdepth in specs.INT:
            return [int(v) << SHIFT.get(j.outdepth, 0) for v in out]
        if j.outdepth == "16f":
            return np.array(out, np.float32).astype(np.float16).view(np.uint16).tolist()
        return out
    except (ValueError, OverflowError, IndexError, KeyError, TypeError, ZeroDivisionError, NameError, AttributeError):
        return None


def agree(before, after, a, b):
    for x, y in zip(before, after):
        z = convert(a, b, x)
        if z == z and abs(z) < 1e30 and abs(y - z) > 1e-3 * (abs(z) + (1e-3 if b not in specs.INT else 1.0)):
            raise Violation("bit-depth-conversion", "converting %r from %s to %s gives %r" % (x, a, b, y))


def judge(j, img):
    """None, or why the finished image is not what it has to be."""
    if j.want is None:
        return "the transform cannot be applied to this image, but there is a result"
    if (img.width, img.height, img.channels) != (j.img.width, j.img.height, j.img.channels):
        return "size %s" % ((img.width, img.height, img.channels),)
    if img.basetype != STORED[j.outdepth]:
        return "stored as %s" % img.basetype
    if tuple(img.names) != tuple(j.img.names):
        return "channels %s" % (img.names,)
    if img.data is None:
        return "no pixels"
    if img.partial:
        return "only part of the pixels was written"
    want = array.array(simoiio.CODES[img.basetype], j.want)
    if img.data.tobytes() != want.tobytes():
        if len(img.data) != len(want):
            return "%d samples instead of %d" % (len(img.data), len(want))
        for i, (x, y) in enumerate(zip(img.data.tolist(), want.tolist())):
            if x != y and not (x != x and y != y):
                k = i // img.channels
                return "pixel %d of row %d, channel %d is %r instead of %r" % (
                    k % img.width, k // img.width, i % img.channels, x, y)
    got = {n: (t, v) for n, t, v in img.attribs}
    for n, t, v in j.before[1]:
        if n == "oiio:BitsPerSample":
            if got.get(n) is None or got[n][1] != BITS[j.outdepth]:
                return "bits per sample %s" % (got.get(n),)
        elif n == "compression" and j.compression:
            pass
        elif got.get(n) != (t, v):
            return "attribute %s is %r instead of %r" % (n, got.get(n), (t, v))
    for n in got:
        if n not in ("oiio:BitsPerSample", "compression", "CompressionQuality") and n not in [x[0] for x in j.before[1]]:
            return "attribute %s appeared" % n
    if "oiio:BitsPerSample" in got and got["oiio:BitsPerSample"][1] != BITS[j.outdepth]:
        return "bits per sample %s" % (got["oiio:BitsPerSample"],)
    if j.compression and got.get("compression", (None, None))[1] != j.compression:
        return "compression %s" % (got.get("compression"),)
    if j.quality > 0 and got.get("CompressionQuality", (None, None))[1] != j.quality:
        return "quality %s" % (got.get("CompressionQuality"),)
    return None
