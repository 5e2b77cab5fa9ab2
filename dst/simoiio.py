"""Stand-in for OpenImageIO (not installed here): images live on the simulated machine.

Only the calls the repository makes. Every one of them is an event of the simulated machine and
can fail the way the library reports failure: None or False, or an exception.
"""

import array
import sys
import types

import numpy as np

import world

UINT8, UINT16, HALF, FLOAT = "uint8", "uint16", "half", "float"
CODES = {UINT8: "B", UINT16: "H", HALF: "H", FLOAT: "f"}
DTYPES = {UINT8: np.uint8, UINT16: np.uint16, HALF: np.uint16, FLOAT: np.float32}


class Format(object):
    def __init__(self, basetype):
        self.basetype = basetype


class Attr(object):
    def __init__(self, name, type, value):
        self.name, self.type, self.value = name, type, value


class ImageSpec(object):
    def __init__(self):
        self.format = Format(UINT8)
        self.width = self.height = self.nchannels = 0
        self.channelnames = ()
        self.extra_attribs = []

    def set_format(self, basetype):
        self.format = Format(basetype)

    def attribute(self, name, *rest):
        type, value = rest if len(rest) == 2 else (None, rest[0])
        for a in self.extra_attribs:
            if a.name == name:
                a.type, a.value = type, value
                return
        self.extra_attribs.append(Attr(name, type, value))


class Image(object):
    """What a finished file holds: raw samples in the stored type."""

    def __init__(self, basetype, width, height, channels, names, attribs, data):
        self.basetype, self.width, self.height, self.channels = basetype, width, height, channels
        self.names, self.attribs, self.data = tuple(names), list(attribs), data
        self.finished = True
        self.partial = False


def _event(kind, path, n=0):
    """False: the call fails."""
    w = world.WORLD
    if w is None:
        raise RuntimeError("no simulated machine")
    got = w.event(kind, path, n)
    if got is not None:
        if got[0] == "crash":
            w.crash()
        return False
    return True


def images():
    w = world.WORLD
    if not hasattr(w, "images"):
        w.images = {}
    return w.images


class _Input(object):
    def __init__(self, path, img):
        self.path, self.img, self.closed = path, img, False
        world.WORLD.img_open = getattr(world.WORLD, "img_open", 0) + 1

    def spec(self):
        s = ImageSpec()
        i = self.img
        s.set_format(i.basetype)
        s.width, s.height, s.nchannels, s.channelnames = i.width, i.height, i.channels, i.names
        s.extra_attribs = [Attr(*a) for a in i.attribs]
        return s

    def read_image(self, basetype=None):
        if not _event("img-read", self.path):
            return None
        i = self.img
        want = getattr(basetype, "basetype", basetype) or i.basetype
        if want != i.basetype:
            raise NotImplementedError("conversion on read is not simulated")
        return array.array(CODES[want], i.data)

    def close(self):
        ok = _event("img-close", self.path)
        if not self.closed:
            self.closed = True
            world.WORLD.img_open -= 1
        return ok


class ImageInput(object):
    @staticmethod
    def open(path):
        if not _event("img-open", path):
            return None
        img = images().get(path)
        if img is None or not img.finished:
            return None
        return _Input(path, img)


class _Output(object):
    def __init__(self, path):
        self.path = path
        self.image = None

    def open(self, path, spec, mode=None):
        ok = _event("img-wopen", path)
        if not ok:
            return False
        self.path = path
        self.spec = spec
        attribs = [(a.name, a.type, a.value) for a in spec.extra_attribs]
        self.image = Image(spec.format.basetype, spec.width, spec.height, spec.nchannels,
                           spec.channelnames, attribs, None)
        self.image.finished = False
        images()[path] = self.image
        return True

    def write_image(self, fmt, pixels):
        basetype = getattr(fmt, "basetype", fmt)
        data = np.asarray(pixels)
        try:
            ok = _event("img-write", self.path)
        except BaseException:
            self._part(data)
            raise
        if not ok:
            self._part(data)
            return False
        if self.image is None or len(data) != self.image.width * self.image.height * self.image.channels:
            return False
        if basetype != self.image.basetype or data.dtype != DTYPES[basetype]:
            return False
        self.image.data = array.array(CODES[basetype], data.tolist())
        self.image.partial = False
        return True

    def _part(self, data):
        """What a failed write leaves behind: the first half. Closing such a file finishes it."""
        if self.image is not None:
            n = self.image.width * self.image.height * self.image.channels
            part = np.zeros(n, DTYPES[self.image.basetype])
            if data.dtype == part.dtype:
                part[:n // 2] = data[:n // 2]
            self.image.data = array.array(CODES[self.image.basetype], part.tolist())
            self.image.partial = True

    def close(self):
        ok = _event("img-wclose", self.path)
        if ok and self.image is not None and self.image.data is not None:
            self.image.finished = True
        return ok


class ImageOutput(object):
    @staticmethod
    def create(path):
        if not _event("img-create", path):
            return None
        return _Output(path)


def install():
    m = types.ModuleType("OpenImageIO")
    m.VERSION = 10800
    m.Create = "Create"
    for name in ("UINT8", "UINT16", "HALF", "FLOAT", "ImageInput", "ImageOutput", "ImageSpec"):
        setattr(m, name, globals()[name])
    sys.modules["OpenImageIO"] = m
