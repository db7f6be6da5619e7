"""Stands in for the OpenColorIO bindings: a configuration is a JSON file."""
import json


class Constants(object):
    COLORSPACE_DIR_TO_REFERENCE = "to_reference"
    COLORSPACE_DIR_FROM_REFERENCE = "from_reference"
    TRANSFORM_DIR_FORWARD = "forward"
    TRANSFORM_DIR_INVERSE = "inverse"


class Transform(object):
    def __init__(self, d):
        self.d = d

    def getDirection(self):
        return str(self.d.get("dir", "forward"))


class GroupTransform(Transform):
    def getTransforms(self):
        return [t for t in (make(k) for k in self.d["kids"]) if t is not None]


class FileTransform(Transform):
    def getSrc(self):
        return str(self.d["src"])

    def getInterpolation(self):
        return str(self.d["interp"])


class MatrixTransform(Transform):
    def getMatrix(self):
        return [float(x) for x in self.d["m"]]

    def getOffset(self):
        return [float(x) for x in self.d["o"]]


class LogTransform(Transform):
    def getBase(self):
        return float(self.d["base"])


class CDLTransform(Transform):
    pass


KINDS = {"group": GroupTransform, "file": FileTransform, "matrix": MatrixTransform, "log": LogTransform}


def make(d):
    return None if d is None else KINDS[d["t"]](d)


class ColorSpace(object):
    def __init__(self, d):
        self.d = d

    def getName(self):
        return str(self.d["name"])

    def getTransform(self, direction):
        return make(self.d[{"to_reference": "to", "from_reference": "from"}[direction]])


class Config(object):
    @staticmethod
    def CreateFromFile(path):
        c = Config()
        with open(path) as f:
            c.d = json.load(f)
        return c

    def getSearchPath(self):
        return str(self.d["search"])

    def getColorSpace(self, name):
        for s in self.d["spaces"]:
            if s["name"] == name:
                return ColorSpace(s)
        return None
