"""Transforms as plain data: generated from choices, built through the public API, and compared
with what a file or a loaded transform holds. The expected XML is derived from the plain data
alone, never by running the code under test."""

import base64
import math
import random
import struct
import xml.etree.ElementTree as etree

import numpy as np

INT = {"8i": 255, "10i": 1023, "12i": 4095, "16i": 65535}
FLOATS = ["32f", "16f"]
DEPTHS = ["32f", "16f", "8i", "10i", "12i", "16i"]
CODES = ["integer16bit", "integer32bit", "integer64bit", "hex16bit", "hex32bit", "hex64bit"]
AUTODESK = ("ExposureContrast", "Gamma", "Log", "Reference")
DUIKER = ("Group",)

TEXTS = ["a", "plain text", "\u00e9t\u00e9", "\u65e5\u672c\u8a9e", "a<b & \"c\" >'d'", "]]>", " two  spaces ", "\U0001d11e",
         "tab\there", "line\nbreak", "0", "n" * 300, " leading", "trailing ", "  ", "\n indented\n  lines\n", "true", "None",
         "100%", "%s %d", "&amp;&lt;", "<!-- c -->", "e\u0301", "\u00a0\u2028", "\\n", "1e400", "&#65;", "<?x y?>", "{0}"]
ATTRS = ["a", "name 1", "\u00e9", "<&>\"'", "\u65e5\u672c", "x@1", "\U0001d11e", "n" * 120, "1.0", "0", "1", "true", "false", "yes", "No", "TRUE", "None", "nan", " padded  ", "a  b", "%s", "&amp;", "e\u0301",
         "null", "{x}", "-", "\u00a0"]
DPARAMS = ["EXPOSURE", "CONTRAST", "\u00e9"]


def dec(c, lo=-4, hi=4):
    """A decimal with at most nine decimals, exact in a 32 bit float."""
    k = c.choose((hi - lo) * 512 + 1)
    return float(lo * 512 + k) / 512.0


def posdec(c, hi=3):
    return (1 + c.choose(hi * 512)) / 512.0


def long_text(n, seed):
    """Text that hardly compresses: files of many buffers, compressed or not."""
    return base64.b64encode(random.Random(seed).getrandbits(6 * n).to_bytes(6 * n // 8 + 1, "big")).decode("ascii")


class Gen(object):
    """kw: types, depths, texts (bool), bypass, encodings, refs (list of paths), depth, maxnodes."""

    def __init__(self, c, types=None, depths=None, rich=True, bypass=True, encodings=True, refs=(),
                 groups=1, maxnodes=4, dyn=True, wild=True, halfdomain=0.0, moremaps=False, long=0.0, blanks=0.06):
        self.c = c
        self.types = types or ["Matrix", "Range", "LUT1D", "LUT3D", "ASC_CDL", "ExposureContrast", "Gamma",
                               "Log", "Reference", "Group", "ColorCorrection"]
        self.depths = depths or DEPTHS
        self.rich, self.bypass, self.encodings, self.refs = rich, bypass, encodings, list(refs)
        self.groups, self.maxnodes, self.dyn, self.wild = groups, maxnodes, dyn, wild
        self.halfdomain, self.moremaps, self.long = halfdomain, moremaps, long
        self.blanks = blanks            # how often an id or name is empty or missing

    def digits(self, v):
        """A parameter, sometimes with a tenth decimal, or next to nothing."""
        c = self.c
        if not self.rich or not c.flag(0.06):
            return v
        return round(v + (1 + c.choose(9)) * 1e-10, 10) if c.flag(0.6) else (1 + c.choose(99)) * 1e-11

    def text(self, pool):
        return self.c.pick(pool) if self.rich else self.c.pick(pool[:2])

    def label(self):
        return "" if self.rich and self.c.flag(self.blanks) else self.text(ATTRS)

    def list(self):
        c = self.c
        s = {"attrs": {}, "elements": [], "nodes": []}
        if not self.rich or not c.flag(self.blanks / 2):
            s["attrs"]["id"] = self.label()
        if c.flag(0.8):
            s["attrs"]["name"] = self.label()
        if c.flag(0.7):
            s["attrs"]["compCLFversion"] = "1.0"
        if self.rich:
            if c.flag(0.3):
                s["attrs"]["xmlns"] = c.pick(["urn:NATAS:AMPAS:LUT:v1.0", "http://x.y/z"])
            if c.flag(0.2):
                s["attrs"]["inverseOf"] = self.text(ATTRS)
            if c.flag(0.15):
                s["attrs"]["custom"] = self.text(ATTRS)
            for k in ("Description", "InputDescriptor", "OutputDescriptor"):
                for i in range(c.pick([0, 1, 2], [6, 3, 1])):
                    s["elements"].append([k, self.text(TEXTS)])
            if c.flag(0.25):
                s["elements"].append(["Info", c.pick(["", "rel 1", "\u00e9"]), c.pick(["", "(c) me"])])
        if self.long and c.flag(self.long):
            s["elements"].append(["Description", long_text(30000 * (1 + c.choose(4)), c.choose(256))])
        n = c.pick([1, 2, 3, 4, 0], [5, 5, 3, 2, 0.4]) if self.maxnodes >= 4 else 1 + c.choose(self.maxnodes)
        prev = None
        for i in range(n):
            node = self.node(self.groups, prev)
            prev = node["out"]
            s["nodes"].append(node)
        return s

    def node(self, groups=0, prev=None, types=None):
        c = self.c
        types = [t for t in (types or self.types)
                 if not (t == "Group" and groups <= 0) and not (t == "Reference" and not self.refs)]
        t = c.pick(types)
        n = {"t": t, "in": prev if prev is not None and c.flag(0.85) else c.pick(self.depths),
             "out": c.pick(self.depths), "id": self.label(), "name": self.label(),
             "desc": [], "dyn": [], "bypass": False}
        if self.rich:
            n["desc"] = [self.text(TEXTS) for i in range(c.pick([0, 1, 2], [6, 3, 1]))]
            if c.flag(0.1):
                n["extra"] = self.text(ATTRS)
        if self.dyn and c.flag(0.15):
            n["dyn"] = [c.pick(DPARAMS) for i in range(1 + c.choose(2))]
        if self.bypass and c.flag(0.12):
            n["bypass"] = True
        getattr(self, "g_" + t)(n, groups)
        return n

    # tables

    def values(self, n, count):
        """count table values with encoding n["enc"], for output depth n["out"]."""
        c, enc = self.c, n["enc"]
        if n.get("rawHalfs") or enc in ("integer16bit", "hex16bit"):
            return [self.bits(16, n) for i in range(count)]
        if enc in ("integer32bit", "hex32bit"):
            return [self.bits(32, n) for i in range(count)]
        if enc in ("integer64bit", "hex64bit"):
            return [self.bits(64, n) for i in range(count)]
        if n["out"] in INT:
            return [float(c.choose(INT[n["out"]] + 1)) for i in range(count)]
        return [dec(c, -2, 3) for i in range(count)]

    def bits(self, width, n):
        v = self.bits_of(width)
        if n["out"] in INT and math.isinf(v):
            return 0.0          # infinity is not a code value
        return v

    def bits_of(self, width):
        c = self.c
        kind = c.choose(6, [8, 1, 1, 1, 1, 1] if self.wild else [1, 0, 0, 0, 0, 0])
        if kind == 0:
            return dec(c, -1, 2) if width > 16 or not self.wild else (c.choose(2048) - 1024) / 512.0
        if kind == 1:
            return -0.0
        if kind == 2:
            return c.pick([float("inf"), float("-inf")])
        if kind == 3:       # the smallest denormal, the largest number
            return {16: c.pick([2.0 ** -24, 65504.0]), 32: c.pick([2.0 ** -149, 3.4028234663852886e38]),
                    64: c.pick([5e-324, 1.7976931348623157e308])}[width]
        if kind == 4:
            return {16: 0.333251953125, 32: struct.unpack(">f", struct.pack(">f", 1 / 3.0))[0], 64: 1 / 3.0}[width]
        raw = c.choose(1 << 16) << (width - 16) | c.choose(1 << 16) >> (32 - min(32, width))
        v = {16: lambda: float(np.uint16(raw & 0xffff).view(np.float16)),
             32: lambda: float(np.uint32(raw & 0xffffffff).view(np.float32)),
             64: lambda: float(np.uint64(raw & (2 ** 64 - 1)).view(np.float64))}[width]()
        return 0.5 if math.isnan(v) else v

    def encoding(self, n):
        n["enc"] = self.c.pick(["string"] + CODES, [6] + [1] * 6) if self.encodings else "string"

    def g_Matrix(self, n, groups):
        self.encoding(n)
        cols = self.c.pick([3, 4])
        n["dims"] = self.c.pick([[3, cols], [3, cols, 3]], [5, 1])
        n["values"] = self.values(n, 3 * cols)

    def maps(self, n, size):
        c = self.c
        out = []
        for i in range(c.pick([0, 1, 3], [1, 5, 2] if self.moremaps else [6, 2, 1])):
            k = 3 + c.choose(4) if self.moremaps else 2 + c.choose(3)
            x, xs, ys = dec(c, -1, 1), [], []
            for j in range(k):
                xs.append(x)
                x += posdec(c, 2)
                ys.append(c.choose(size) if j else 0)
            out.append([xs, sorted(ys)])
        n["maps"] = out

    def g_LUT1D(self, n, groups):
        c = self.c
        n["interp"] = "linear"
        if self.rich and c.flag(0.12):
            n["rawHalfs"] = True
        self.encoding(n)
        n["ch"] = c.pick([3, 1])
        if self.halfdomain and c.flag(self.halfdomain):
            n["halfDomain"] = True
            size = 65536
            a, b = dec(c, 0, 2), dec(c, 0, 1)
            n["enc"] = "hex16bit"
            n["maps"] = []
            n["ch"] = 1
            n["values"] = [float(np.float16(a * (i % 997) / 997.0 + b)) for i in range(size)]
            return
        size = 6 + c.choose(8) if self.moremaps else 2 + c.small(0, 9)
        self.maps(n, size)
        n["values"] = self.values(n, size * n["ch"])

    def g_LUT3D(self, n, groups):
        c = self.c
        n["interp"] = c.pick(["trilinear", "tetrahedral"])
        self.encoding(n)
        size = c.pick([2, 3], [4, 1])
        n["dims"] = [size] * 3
        self.maps(n, size)
        n["values"] = self.values(n, size ** 3 * 3)

    def g_Range(self, n, groups):
        c = self.c
        n["style"] = c.pick(["noClamp", "clamp", ""])
        kind = c.choose(5)
        sin, sout = INT.get(n["in"], 1), INT.get(n["out"], 1)
        lo, ho = dec(c, -1, 1) * sin, dec(c, -1, 1) * sout
        hi, hm = lo + posdec(c, 2) * sin, ho + posdec(c, 2) * sout
        n["vals"] = {}
        if kind in (0, 1, 4):
            n["vals"]["minInValue"], n["vals"]["minOutValue"] = lo, ho
        if kind in (0, 2):
            n["vals"]["maxInValue"], n["vals"]["maxOutValue"] = hi, hm
        n["default"] = kind == 3 or c.flag(0.05)

    def g_ASC_CDL(self, n, groups):
        c = self.c
        n["style"] = c.pick(["Fwd", "FwdNoClamp", "Rev", "RevNoClamp", "v1.2_Fwd", "v1.2_Rev", "noClampFwd", "noClampRev"])
        n["slope"] = [self.digits(posdec(c)) for i in range(3)]
        n["offset"] = [self.digits(dec(c, -1, 1)) for i in range(3)]
        n["power"] = [self.digits(posdec(c)) for i in range(3)]
        n["sat"] = self.digits(posdec(c, 2))

    def g_ColorCorrection(self, n, groups):
        self.g_ASC_CDL(n, groups)
        n["style"] = None

    def g_ExposureContrast(self, n, groups):
        c = self.c
        n["style"] = c.pick(["linear", "log", "video"])
        n["ec"] = [self.digits(dec(c, -2, 2)), 0.0 if self.rich and c.flag(0.08) else self.digits(posdec(c, 2)),
                   self.digits(posdec(c, 1))]

    def g_Gamma(self, n, groups):
        c = self.c
        n["style"] = c.pick(["basicFwd", "basicRev", "moncurveFwd", "moncurveRev"])
        n["params"] = [[self.digits(1.0 + posdec(c, 2)), posdec(c, 1) / 4 if "mon" in n["style"] else 0.0, ch]
                       for ch in c.pick([[None], ["R", "G", "B"], ["G"]], [3, 1, 1])]

    def g_Log(self, n, groups):
        c = self.c
        n["style"] = c.pick(["log10", "log2", "antiLog10", "antiLog2", "logToLin", "linToLog"])
        n["params"] = [[posdec(c, 1), 600.0 + c.choose(200), 60.0 + c.choose(60), 1.0, dec(c, 0, 1) / 16, ch]
                       for ch in c.pick([[None], ["R", "G", "B"], []], [3, 1, 1])]

    def g_Reference(self, n, groups):
        c = self.c
        path = c.pick(self.refs)
        base, _, name = path.rpartition("/")
        n["path"], n["base"] = (name, base) if c.flag(0.5) else (path, "")
        n["alias"] = c.pick(["", "al"], [5, 1])

    def g_Group(self, n, groups):
        c = self.c
        n["nodes"] = []
        prev = n["in"]
        for i in range(c.pick([1, 2, 0], [4, 3, 0.5])):
            k = self.node(groups - 1, prev)
            prev = k["out"]
            n["nodes"].append(k)


# -- building through the public interface ---------------------------------------------------

def build(clf, spec):
    pl = clf.ProcessList()
    for k, v in spec["attrs"].items():
        how = {"id": pl.setID, "name": pl.setName, "compCLFversion": pl.setCompCLFversion, "xmlns": pl.setNamespace,
               "inverseOf": pl.setInverseOf}.get(k)
        if how is not None:
            how(v)
        else:
            pl.setAttribute(k, v)
    for e in spec["elements"]:
        if e[0] == "Info":
            pl.addElement(clf.Info(e[1], e[2]))
        else:
            pl.addElement(getattr(clf, e[0])(e[1]))
    for n in spec["nodes"]:
        pl.addProcess(build_node(clf, n))
    return pl


def build_node(clf, n):
    t = n["t"]
    args = (n["in"], n["out"], n["id"], n["name"])
    maps = n.get("maps") or []
    if t == "Matrix":
        p = clf.Matrix(*args)
        p.setMatrix(list(n["dims"]), list(n["values"]), n["enc"])
    elif t == "LUT1D":
        kw = {"interpolation": n["interp"]}
        if n.get("rawHalfs"):
            kw["rawHalfs"] = True
        if n.get("halfDomain"):
            kw["halfDomain"] = True
        p = clf.LUT1D(*args, **kw)
        if maps:
            p.setIndexMaps(*[[list(m[0]), list(m[1])] for m in maps])
        p.setArray(n["ch"], list(n["values"]), n["enc"])
    elif t == "LUT3D":
        p = clf.LUT3D(*args, interpolation=n["interp"])
        if maps:
            p.setIndexMaps(*[[list(m[0]), list(m[1])] for m in maps])
        p.setArray(list(n["dims"]), list(n["values"]), n["enc"])
    elif t == "Range":
        p = clf.Range(*args, style=n["style"], defaultRange=n["default"] or None)
        for k, v in n["vals"].items():
            getattr(p, "set" + k[0].upper() + k[1:])(v)
    elif t in ("ASC_CDL", "ColorCorrection"):
        p = clf.ASCCDL(*args, style=n["style"]) if t == "ASC_CDL" else clf.ColorCorrection(*args)
        p.setSlope(*n["slope"])
        p.setOffset(*n["offset"])
        p.setPower(*n["power"])
        p.setSaturation(n["sat"])
    elif t == "ExposureContrast":
        p = clf.ExposureContrast(*args, style=n["style"])
        p.setExposureContrastPivot(*n["ec"])
    elif t == "Gamma":
        p = clf.Gamma(*args, style=n["style"])
        for g in n["params"]:
            p.setGamma(*g)
    elif t == "Log":
        p = clf.Log(*args, style=n["style"])
        for g in n["params"]:
            p.setLogParams(*g)
    elif t == "Reference":
        p = clf.Reference(*args, path=n["path"], basePath=n["base"], alias=n["alias"])
    elif t == "Group":
        p = clf.Group(*args)
        for k in n["nodes"]:
            p.addProcess(build_node(clf, k))
    else:
        raise AssertionError(t)
    if n["bypass"]:
        p.setAttribute("bypass", True)
    if "extra" in n:
        p.setAttribute("extra", n["extra"])
    for d in n["desc"]:
        p.addElement(clf.Description(d))
    for d in n["dyn"]:
        p.setDynamicParam(d)
    return p


# -- what a file of the transform holds ------------------------------------------------------
# model: (tag, attrs, payload, children); payload: None, ("text", s) or ("table", enc, dims, values)

PROCESS = {"Matrix", "LUT1D", "LUT3D", "Range", "ASC_CDL", "ColorCorrection", "ExposureContrast", "Gamma", "Log",
           "Reference", "Group"}


def expect(spec, dyn=True):
    kids = []
    for e in spec["elements"]:
        if e[0] == "Info":
            kids.append(("Info", {}, None, [("AppRelease", {}, ("text", e[1]), [])] * (e[1] != "") +
                         [("Copyright", {}, ("text", e[2]), [])] * (e[2] != "")))
        else:
            kids.append((e[0], {}, ("text", e[1]), []))
    kids = arrange(kids)
    for n in spec["nodes"]:
        kids.append(expect_node(n, dyn))
    attrs = dict(spec["attrs"])
    return ("ProcessList", attrs, None, kids)


def num(v):
    return ("nums", [float(v)])


def expect_node(n, dyn=True):
    t = n["t"]
    a = {"inBitDepth": n["in"], "outBitDepth": n["out"], "id": n["id"], "name": n["name"]}
    if t == "ColorCorrection":
        a = {"id": n["id"]}
    if n["bypass"]:
        a["bypass"] = "True"
    if "extra" in n:
        a["extra"] = n["extra"]
    kids = [("Description", {}, ("text", d), []) for d in n["desc"]]
    if dyn:
        kids += [("DynamicParameter", {"param": d}, ("text", None), []) for d in n["dyn"]]
    procs = []
    if t in ("Matrix", "LUT1D", "LUT3D"):
        if t != "Matrix" and n["interp"]:
            a["interpolation"] = n["interp"]
        if n.get("rawHalfs"):
            a["rawHalfs"] = "True"
        if n.get("halfDomain"):
            a["halfDomain"] = "True"
        for m in n.get("maps") or []:
            kids.append(("IndexMap", {"dim": str(len(m[0]))}, ("map", [(float(x), float(y)) for x, y in zip(*m)]), []))
        if t == "Matrix":
            dims = n["dims"]
        elif t == "LUT1D":
            dims = [len(n["values"]) // n["ch"], n["ch"]]
        else:
            dims = n["dims"] + [3]
        ta = {"dim": " ".join(map(str, dims))}
        if n["enc"] != "string":
            ta["floatEncoding"] = n["enc"]
        code = n["enc"]
        if n.get("rawHalfs"):
            code = "integer16bit"
        kids.append(("Array", ta, ("table", code, [float(v) for v in n["values"]]), []))
    elif t == "Range":
        if n["style"]:
            a["style"] = n["style"]
        if n["default"]:
            a["defaultRange"] = "True"
        for k, v in n["vals"].items():
            kids.append((k, {}, num(v), []))
    elif t in ("ASC_CDL", "ColorCorrection"):
        if t == "ASC_CDL":
            a["style"] = n["style"]
        kids.append(("SOPNode", {}, None, arrange([("Slope", {}, ("nums", n["slope"]), []),
                                                   ("Offset", {}, ("nums", n["offset"]), []),
                                                   ("Power", {}, ("nums", n["power"]), [])])))
        kids.append(("SatNode", {}, None, [("Saturation", {}, num(n["sat"]), [])]))
    elif t == "ExposureContrast":
        a["style"] = n["style"]
        kids.append(("ECParams", nums_of({"exposure": n["ec"][0], "contrast": n["ec"][1], "pivot": n["ec"][2]}), None, []))
    elif t == "Gamma":
        a["style"] = n["style"]
        for g in n["params"]:
            b = nums_of({"gamma": g[0]})
            if g[1] != 0.0:
                b.update(nums_of({"offset": g[1]}))
            if g[2] is not None:
                b["channel"] = g[2]
            kids.append(("GammaParams", b, None, []))
    elif t == "Log":
        a["style"] = n["style"]
        for g in n["params"]:
            b = nums_of(dict(zip(["gamma", "refWhite", "refBlack", "highlight", "shadow"], g)))
            if g[5] is not None:
                b["channel"] = g[5]
            kids.append(("LogParams", b, None, []))
    elif t == "Reference":
        for k, v in (("path", n["path"]), ("basePath", n["base"]), ("alias", n["alias"])):
            if v:
                a[k] = v
    elif t == "Group":
        procs = [expect_node(k, dyn) for k in n["nodes"]]
    return (t, a, None, arrange(kids) + procs)


NUMERIC = {"exposure", "contrast", "pivot", "gamma", "offset", "refWhite", "refBlack", "highlight", "shadow"}
NUMERIC_TAGS = {"ECParams", "GammaParams", "LogParams"}


def nums_of(d):
    return {k: ("num", float(v)) for k, v in d.items()}


def arrange(kids):
    """Process nodes keep their order; other children are ordered by kind, keeping the order
    within one kind: where a file puts descriptions relative to tables means nothing."""
    procs = [k for k in kids if k[0] in PROCESS]
    rest = sorted((k for k in kids if k[0] not in PROCESS), key=lambda k: k[0])
    return rest + procs


def decode(code, text):
    """Independent decoding of table text."""
    out = []
    for tok in text.split():
        if code == "string":
            out.append(float(tok))
        elif code.startswith("integer"):
            width = int(code[7:9])
            fmt, ffmt = {16: (">H", ">e"), 32: (">I", ">f"), 64: (">Q", ">d")}[width]
            out.append(struct.unpack(ffmt, struct.pack(fmt, int(tok)))[0])
        else:
            width = int(code[3:5])
            if len(tok) != width // 4:
                raise ValueError("hex length of %r" % tok)
            out.append(struct.unpack({16: ">e", 32: ">f", 64: ">d"}[width], bytes.fromhex(tok))[0])
    return out


def strip(tag):
    return tag[tag.find("}") + 1:]


def model_of(el, raw_halfs=False):
    """The same model, read from an XML element."""
    tag = strip(el.tag)
    attrs = {}
    if el.tag.startswith("{") and tag == "ProcessList":
        attrs["xmlns"] = el.tag[1:el.tag.find("}")]
    for k, v in el.attrib.items():
        attrs[k] = ("num", float(v)) if tag in NUMERIC_TAGS and k in NUMERIC else v
    payload = None
    if tag == "Array":
        code = attrs.get("floatEncoding", "string")
        if raw_halfs:
            code = "integer16bit"
        payload = ("table", code, decode(code, el.text or ""))
    elif tag == "IndexMap":
        payload = ("map", [(float(p.split("@")[0]), float(p.split("@")[1])) for p in (el.text or "").split()])
    elif tag in ("minInValue", "maxInValue", "minOutValue", "maxOutValue", "Saturation", "Slope", "Offset", "Power"):
        payload = ("nums", [float(x) for x in (el.text or "").split()])
    elif tag in ("Description", "InputDescriptor", "OutputDescriptor", "AppRelease", "Copyright", "DynamicParameter",
                 "Release"):
        payload = ("text", el.text or None)
    rh = attrs.get("rawHalfs", "False") != "False"
    kids = arrange([model_of(k, rh) for k in el])
    if tag == "Info":
        kids = [k for k in kids]
    return (tag, attrs, payload, kids)


def same_float(a, b):
    return struct.pack(">d", a) == struct.pack(">d", b)


def differ(a, b, where=""):
    """None, or a description of the first difference between two models. a: expected."""
    here = "%s/%s" % (where, a[0])
    if a[0] != b[0]:
        return "%s: element %s instead of %s" % (where, b[0], a[0])
    for k in sorted(set(a[1]) | set(b[1])):
        if k not in a[1]:
            return "%s: extra attribute %s=%r" % (here, k, b[1][k])
        if k not in b[1]:
            return "%s: attribute %s=%r is missing" % (here, k, a[1][k])
        if a[1][k] != b[1][k]:
            return "%s: attribute %s is %r instead of %r" % (here, k, b[1][k], a[1][k])
    pa, pb = a[2], b[2]
    if pa is not None or pb is not None:
        if pa is None or pb is None or pa[0] != pb[0]:
            return "%s: content %r instead of %r" % (here, pb, pa)
        if pa[0] == "text":
            if (pa[1] or None) != (pb[1] or None):
                return "%s: text %r instead of %r" % (here, pb[1], pa[1])
        elif pa[0] == "table":
            if pa[1] != pb[1]:
                return "%s: encoding %s instead of %s" % (here, pb[1], pa[1])
            if len(pa[2]) != len(pb[2]):
                return "%s: %d values instead of %d" % (here, len(pb[2]), len(pa[2]))
            for i, (x, y) in enumerate(zip(pa[2], pb[2])):
                ok = abs(x - y) <= 5.1e-10 if pa[1] == "string" else same_float(x, y)
                if not ok:
                    return "%s: value %d is %r instead of %r" % (here, i, y, x)
        elif pa[0] == "nums":
            if [float(x) for x in pa[1]] != [float(x) for x in pb[1]]:
                return "%s: %r instead of %r" % (here, pb[1], pa[1])
        elif pa != pb:
            return "%s: %r instead of %r" % (here, pb, pa)
    ta, tb = [k[0] for k in a[3]], [k[0] for k in b[3]]
    if ta != tb:
        return "%s: children %s instead of %s" % (here, tb, ta)
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        d = differ(x, y, "%s[%d]" % (here, i))
        if d:
            return d
    return None


def root_of(pl):
    return pl.write().getroot()


def live_model(pl):
    """The model of an in-memory transform. The namespace is an attribute there, so the tree is
    serialised and parsed like a file."""
    return model_of(etree.fromstring(etree.tostring(root_of(pl), encoding="UTF-8")))


def file_model(data):
    return model_of(etree.fromstring(data))


# -- results ---------------------------------------------------------------------------------

PROBES = [[0.25, 0.5, 0.75], [-0.125, 1.5, 0.0], [0.18, 0.9, 0.33, 0.5]]


def probe_values(c, spec=None, n=1, stride=3):
    depth = "32f"
    if spec is not None and spec["nodes"]:
        depth = spec["nodes"][0]["in"]
    top = INT.get(depth, 1)
    vals = []
    for i in range(n * stride):
        vals.append(dec(c, -1, 2) * top if top == 1 else float(c.choose(top + 1)))
    return vals


def outcome(fn):
    """('ok', bytes of the result) or ('err', type): what a caller sees."""
    try:
        r = fn()
    except Exception as e:
        return ("err", type(e).__name__)
    a = np.array(r, np.float32)
    return ("ok", a.tobytes())


def result_of(pl, vals, stride=3):
    return outcome(lambda: pl.process(list(vals), stride))


TABLE_TYPES = ("Matrix", "LUT1D", "LUT3D")


def close(a, b, scale):
    if a[0] != b[0]:
        return False
    if a[0] == "err":
        return a[1] == b[1]
    x, y = np.frombuffer(a[1], np.float32), np.frombuffer(b[1], np.float32)
    if x.shape != y.shape:
        return False
    for p, q in zip(x.tolist(), y.tolist()):
        if p == q or (p != p and q != q):
            continue
        if p != p or q != q or abs(p) == float("inf") or abs(q) == float("inf"):
            if max(abs(p) if p == p else 0, abs(q) if q == q else 0) > 1e37 and p == p and q == q:
                continue
            return False
        if abs(p - q) > 2e-5 * (scale + abs(p) + abs(q)):
            return False
    return True


def compare_results(spec_nodes, a, b, vals, stride=3, where=""):
    """None or the first difference: every node of a (built from spec_nodes) and b gives the same
    result for the same input. Tables that were lists of Python floats become 32 bit floats when
    reloaded, so their results agree to rounding only; all others agree exactly."""
    if len(list(a)) != len(spec_nodes) or len(list(b)) != len(spec_nodes):
        return "%s: %d nodes instead of %d" % (where, len(list(b)), len(spec_nodes))
    for i, n in enumerate(spec_nodes):
        if n["t"] == "ColorCorrection":
            continue
        x, y = a[i], b[i]
        here = "%s/%s[%d]" % (where, n["t"], i)
        if type(x) is not type(y):
            return "%s: %s instead of %s" % (here, type(y).__name__, type(x).__name__)
        if n["t"] == "Group":
            d = compare_results(n["nodes"], x.getProcesses(), y.getProcesses(), vals, stride, here)
            if d:
                return d
            continue
        top = INT.get(n["in"], 1)
        v = [q * top for q in vals]
        rx = outcome(lambda: x.process(np.array(v, np.float32), stride))
        ry = outcome(lambda: y.process(np.array(v, np.float32), stride))
        if n["t"] in TABLE_TYPES:
            fin = [abs(q) for q in n["values"] if abs(q) < 1e30]
            scale = 1.0 + max(map(abs, v)) * (max(fin) if fin else 0.0) + (max(fin) if fin else 0.0)
            big = any(abs(q) > 1e30 for q in n["values"])
            ok = big or close(rx, ry, scale)
        else:
            ok = rx == ry
        if not ok:
            return "%s: result %s instead of %s for %s" % (here, show(ry), show(rx), v)
    return None


def show(r):
    if r[0] == "err":
        return r[1]
    return str(np.frombuffer(r[1], np.float32).tolist())


def describe(spec):
    def one(n):
        s = n["t"]
        if n["t"] == "Group":
            s += "(" + ",".join(one(k) for k in n["nodes"]) + ")"
        if n.get("enc", "string") != "string":
            s += ":" + n["enc"]
        if n["bypass"]:
            s += "!"
        return s
    return ",".join(one(n) for n in spec["nodes"]) or "empty"


def features_needed(spec):
    """Bits of the feature set the spec makes use of."""
    need = 0

    def walk(n):
        nonlocal need
        if n["t"] in AUTODESK or n["dyn"] or n["bypass"]:
            need |= 1
        if n["t"] in DUIKER or n.get("enc", "string") != "string":
            need |= 2
        for k in n.get("nodes", ()):
            walk(k)
    for n in spec["nodes"]:
        walk(n)
    return need
