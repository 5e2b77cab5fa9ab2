"""Stand-in for PyOpenColorIO (not installed here): colour configurations are small JSON files on
the simulated disk, read through the simulated system calls."""

import json
import sys
import types


class Transform(object):
    def __init__(self, d):
        self.d = d

    def getDirection(self):
        return self.d.get("direction", "forward")


class GroupTransform(Transform):
    def getTransforms(self):
        return [make(x) for x in self.d["children"]]


class FileTransform(Transform):
    def getSrc(self):
        return self.d["src"]

    def getInterpolation(self):
        return self.d.get("interpolation", "linear")


class MatrixTransform(Transform):
    def getMatrix(self):
        return list(self.d["matrix"])

    def getOffset(self):
        return list(self.d.get("offset", [0.0, 0.0, 0.0, 0.0]))


class LogTransform(Transform):
    def getBase(self):
        return self.d["base"]


class CDLTransform(Transform):
    """A kind of transform the conversion does not know."""


KINDS = {"cdl": CDLTransform, "group": GroupTransform, "file": FileTransform, "matrix": MatrixTransform, "log": LogTransform}


def make(d):
    return KINDS[d["kind"]](d)


class ColorSpace(object):
    def __init__(self, d):
        self.d = d

    def getTransform(self, direction):
        t = self.d.get(direction)
        return None if t is None else make(t)


class Config(object):
    def __init__(self, d):
        self.d = d

    @staticmethod
    def CreateFromFile(path):
        with open(path, "rb") as f:
            text = f.read()
        try:
            return Config(json.loads(text.decode("utf-8")))
        except ValueError:
            raise RuntimeError("Error: Loading the OCIO profile '%s' failed." % path)

    def getSearchPath(self):
        return self.d.get("search", "luts")

    def getColorSpace(self, name):
        cs = self.d["spaces"].get(name)
        return None if cs is None else ColorSpace(cs)


class Constants(object):
    COLORSPACE_DIR_TO_REFERENCE = "to"
    COLORSPACE_DIR_FROM_REFERENCE = "from"


def install():
    m = types.ModuleType("PyOpenColorIO")
    for name in ("Config", "Constants", "GroupTransform", "FileTransform", "MatrixTransform", "LogTransform", "CDLTransform"):
        setattr(m, name, globals()[name])
    sys.modules["PyOpenColorIO"] = m
