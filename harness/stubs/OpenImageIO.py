"""Stands in for the OpenImageIO bindings: images are JSON files.

{"image": 1, "type", "w", "h", "ch", "names", "meta": [[name, type, value]], "hex"}
where hex is the memory of the samples.  FAULT makes a step of writing fail.
"""
import array
import binascii
import json
import os

import numpy as np

VERSION = 10700
FAULT = ""
UINT8, UINT16, HALF, FLOAT = "uint8", "uint16", "half", "float"
UNKNOWN, INT = "unknown", "int"
Create = "Create"
DTYPES = {UINT8: np.uint8, UINT16: np.uint16, HALF: np.float16, FLOAT: np.float32}
NAMES = {UINT8: "UINT8", UINT16: "UINT16", HALF: "HALF", FLOAT: "FLOAT"}
TYPES = {v: k for k, v in NAMES.items()}


class TypeDesc(object):
    def __init__(self, basetype=UNKNOWN):
        self.basetype = basetype

    def __str__(self):
        return self.basetype


class ParamValue(object):
    def __init__(self, name, type, value):
        self.name, self.type, self.value = name, type, value


class ImageSpec(object):
    def __init__(self, *args):
        self.format = TypeDesc()
        self.width = self.height = self.nchannels = 0
        self.channelnames = ()
        self.extra_attribs = []
        if args:
            self.width, self.height, self.nchannels = args[:3]
            if len(args) > 3:
                self.set_format(args[3])

    def set_format(self, t):
        self.format = t if isinstance(t, TypeDesc) else TypeDesc(t)

    def attribute(self, name, *args):
        value = args[-1]
        if len(args) == 2:
            t = str(args[0])
        else:
            t = "string" if isinstance(value, str) else "int" if isinstance(value, (int, np.integer)) else "float"
        if t == "int":
            value = int(value)
        for a in self.extra_attribs:
            if a.name == name:
                a.type, a.value = t, value
                return
        self.extra_attribs.append(ParamValue(name, t, value))


def load(path):
    try:
        with open(path) as f:
            d = json.load(f)
        return d if d.get("image") else None
    except (IOError, ValueError, AttributeError):
        return None


def save(path, d):
    part = path + ".part"
    with open(part, "w") as f:
        json.dump(d, f)
    os.rename(part, path)


class ImageInput(object):
    @staticmethod
    def open(path):
        d = load(path)
        if d is None:
            return None
        i = ImageInput()
        i.d = d
        return i

    def spec(self):
        s = ImageSpec(self.d["w"], self.d["h"], self.d["ch"], TYPES[self.d["type"]])
        s.channelnames = tuple(self.d["names"])
        s.extra_attribs = [ParamValue(n, t, tuple(v) if isinstance(v, list) else v) for n, t, v in self.d["meta"]]
        return s

    def read_image(self, t):
        t = t.basetype if isinstance(t, TypeDesc) else t
        data = np.frombuffer(binascii.unhexlify(self.d["hex"]), dtype=DTYPES[TYPES[self.d["type"]]])
        if t != TYPES[self.d["type"]]:
            raise TypeError("conversion of samples")
        if t == UINT8:
            return array.array("B", [int(x) for x in data])
        if t == UINT16:
            return array.array("H", [int(x) for x in data])
        if t == FLOAT:
            return array.array("f", [float(x) for x in data])
        if VERSION < 10800:
            return array.array("f", [float(x) for x in data.view(np.float32)])
        return array.array("H", [int(x) for x in data.view(np.uint16)])

    def close(self):
        return True


class ImageOutput(object):
    @staticmethod
    def create(path):
        return None if FAULT == "create" else ImageOutput()

    def open(self, path, spec, mode=Create):
        if FAULT == "open":
            return False
        self.path, self.spec = path, spec
        return True

    def write_image(self, t, pixels):
        if FAULT == "raise":
            raise RuntimeError("the disk is full")
        if FAULT == "write":
            return False
        t = t.basetype if isinstance(t, TypeDesc) else t
        s = self.spec
        raw = np.ascontiguousarray(pixels).tobytes()
        save(self.path, {"image": 1, "type": NAMES[s.format.basetype], "given": NAMES[t], "w": int(s.width), "h": int(s.height),
                         "ch": int(s.nchannels), "names": [str(n) for n in s.channelnames],
                         "meta": [[a.name, str(a.type), a.value] for a in s.extra_attribs],
                         "hex": binascii.hexlify(raw).decode("ascii")})
        return True

    def close(self):
        return True
