"""The LUT file formats, parsed and written independently of the code under test."""

import math

INF = float("inf")


class Bad(Exception):
    """Not a complete, well-formed file."""


def _num(tok):
    try:
        return float(tok)
    except ValueError:
        raise Bad("number %r" % tok)


def _int(tok):
    try:
        return int(tok)
    except ValueError:
        raise Bad("integer %r" % tok)


def _text(data):
    try:
        return data.decode("utf-8")
    except UnicodeDecodeError:
        raise Bad("encoding")


def parse_spi1d(data):
    """{'from', 'n', 'ch', 'values'}"""
    out = {"from": (0.0, 1.0), "n": None, "ch": None}
    values, opened, closed = [], False, False
    for line in _text(data).splitlines():
        t = line.split()
        if not t:
            raise Bad("blank line")
        if t[0] == "Version":
            if t != ["Version", "1"]:
                raise Bad("version")
        elif t[0] == "From":
            out["from"] = (_num(t[1]), _num(t[2]))
        elif t[0] == "Length":
            out["n"] = _int(t[1])
        elif t[0] == "Components":
            out["ch"] = _int(t[1])
        elif t == ["{"]:
            opened = True
        elif t == ["}"]:
            closed = True
        else:
            row = [_num(x) for x in t]
            if len(row) != out["ch"]:
                raise Bad("row of %d" % len(row))
            values += row
    if not out["n"] or not out["ch"] or len(values) != out["n"] * out["ch"]:
        raise Bad("%d values" % len(values))
    out["values"] = values
    out["framed"] = opened and closed
    return out


def parse_spi3d(data):
    """{'res', 'values'}: blue fastest"""
    lines = _text(data).splitlines()
    if len(lines) < 3 or lines[0].split() != ["SPILUT", "1.0"] or lines[1].split() != ["3", "3"]:
        raise Bad("header")
    res = [_int(x) for x in lines[2].split()]
    if len(res) != 3 or min(res) < 1 or res[0] * res[1] * res[2] > len(lines):
        raise Bad("resolution")
    got = {}
    order = []
    for line in lines[3:]:
        t = line.split()
        if not t:
            continue
        if len(t) != 6:
            raise Bad("line of %d numbers" % len(t))
        key = tuple(_int(x) for x in t[:3])
        got[key] = [_num(x) for x in t[3:]]
        order.append(key)
    want = [(r, g, b) for r in range(res[0]) for g in range(res[1]) for b in range(res[2])]
    if set(order) != set(want):
        raise Bad("samples")
    return {"res": res, "values": [v for k in want for v in got[k]], "ordered": order == want}


def parse_csp(data):
    """{'kind', 'prelut': 3 x (in, out), 'res', 'values'}: blue fastest"""
    lines = _text(data).splitlines()
    if len(lines) < 3 or lines[0].split() != ["CSPLUTV100"] or lines[1].split() not in (["1D"], ["3D"]):
        raise Bad("header")
    kind = lines[1].split()[0]
    i = 2
    while i < len(lines) and lines[i].strip() != "BEGIN METADATA":
        i += 1
    while i < len(lines) and lines[i].strip() != "END METADATA":
        i += 1
    rest = [x for x in (k.split() for k in lines[i + 1:]) if x]
    if len(rest) < 10:
        raise Bad("short")
    prelut = []
    for c in range(3):
        n, a, b = rest[3 * c:3 * c + 3]
        if len(n) != 1:
            raise Bad("prelut")
        a, b = [_num(x) for x in a], [_num(x) for x in b]
        if len(a) != _int(n[0]) or len(b) != _int(n[0]):
            raise Bad("prelut length")
        prelut.append((a, b))
    res = [_int(x) for x in rest[9]]
    rows = [[_num(x) for x in r] for r in rest[10:]]
    if any(len(r) != 3 for r in rows):
        raise Bad("row")
    if kind == "1D":
        if len(res) != 1 or len(rows) != res[0] or not rows:
            raise Bad("%d rows" % len(rows))
        values = [v for r in rows for v in r]
    else:
        if len(res) != 3 or len(rows) != res[0] * res[1] * res[2] or not rows:
            raise Bad("%d rows" % len(rows))
        values = []
        for r in range(res[0]):
            for g in range(res[1]):
                for b in range(res[2]):
                    values += rows[(b * res[1] + g) * res[0] + r]
    return {"kind": kind, "prelut": prelut, "res": res, "values": values}


PARSE = {"spi1d": parse_spi1d, "spi3d": parse_spi3d, "csp": parse_csp}


# -- ctl ------------------------------------------------------------------------------------

def _braces(text, start):
    i = text.index("{", start)
    depth, j = 0, i
    while True:
        if j >= len(text):
            raise Bad("unbalanced braces")
        if text[j] == "{":
            depth += 1
        elif text[j] == "}":
            depth -= 1
            if depth == 0:
                return text[i:j + 1]
        j += 1


def _tree(text):
    """'{a, {b, c}}' -> nested lists of floats"""
    pos = 0

    def skip():
        nonlocal pos
        while pos < len(text) and text[pos].isspace():
            pos += 1

    def value():
        nonlocal pos
        skip()
        if pos < len(text) and text[pos] == "{":
            pos += 1
            out = []
            while True:
                out.append(value())
                skip()
                if pos >= len(text):
                    raise Bad("end")
                ch = text[pos]
                pos += 1
                if ch == "}":
                    return out
                if ch != ",":
                    raise Bad("separator %r" % ch)
        k = pos
        while pos < len(text) and text[pos] not in ",{}" and not text[pos].isspace():
            pos += 1
        return _num(text[k:pos])
    out = value()
    skip()
    if pos != len(text):
        raise Bad("trailing text")
    return out


def parse_ctl(data):
    text = _text(data)
    if not text.rstrip().endswith("}") or "void main" not in text:
        raise Bad("no main function")
    _braces(text, text.index("void main"))

    def const(name):
        k = text.find(name)
        if k < 0:
            raise Bad(name)
        return text[k:text.index(";", k)].split("=")[1].strip()
    out = {}
    if "const float cube" in text:
        out["kind"] = "3D"
        k = text.index("const float cube")
        out["res"] = [_int(x.strip().rstrip("]")) for x in text[k:text.index("=", k)].split("[")[1:5]]
        out["values"] = _tree(_braces(text, k))
        out["min"] = _tree(const("const float min3d"))
        out["max"] = _tree(const("const float max3d"))
    else:
        out["kind"] = "1D"
        out["values"] = [_tree(_braces(text, text.index("const float lut%d" % c))) for c in range(3)
                         if "const float lut%d" % c in text]
        out["min"] = _num(const("const float min1d"))
        out["max"] = _num(const("const float max1d"))
    return out


# -- writing (inputs for imports) -------------------------------------------------------------

def text(v):
    """Whole numbers are written as such by many tools."""
    return "%d" % v if abs(v) < 10 and v == int(v) and not (v == 0 and math.copysign(1, v) < 0) else repr(v)


def write_spi1d(frm, rows):
    out = ["Version 1", "From %f %f" % frm, "Length %d" % len(rows), "Components %d" % len(rows[0]), "{"]
    out += ["        " + " ".join(text(v) for v in r) for r in rows] + ["}"]
    return ("\n".join(out) + "\n").encode()


def write_spi3d(res, rows, order=None):
    out = ["SPILUT 1.0", "3 3", "%d %d %d" % tuple(res)]
    keys = [(r, g, b) for r in range(res[0]) for g in range(res[1]) for b in range(res[2])]
    lines = ["%d %d %d %s" % (k + (" ".join(text(v) for v in rows[i]),)) for i, k in enumerate(keys)]
    if order is not None:
        lines = [lines[i] for i in order]
    return ("\n".join(out + lines) + "\n").encode()


def write_csp(kind, prelut, res, rows, meta=(), gap=("",)):
    """rows in file order; gap: the lines between the preluts and the resolution"""
    out = ["CSPLUTV100", kind, "", "BEGIN METADATA"] + list(meta) + ["END METADATA", ""]
    for a, b in prelut:
        out += ["%d" % len(a), " ".join(text(v) for v in a), " ".join(text(v) for v in b)]
    out += list(gap) + [" ".join("%d" % n for n in res)]
    out += [" ".join(text(v) for v in r) for r in rows]
    return ("\n".join(out) + "\n").encode()


def same(a, b, tol):
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    if math.isnan(a) or math.isnan(b) or abs(a) == INF or abs(b) == INF:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
