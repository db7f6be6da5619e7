"""Runs recorded programs against the library and logs what it did.

driver.py IN OUT : every line of IN is {"h": [operation, ...]}; the same line
goes to OUT with a "ret" in every operation.  Only public operations of the
library are used, and files that were written are looked at with an XML parser
of their own.  Runs in the interpreter the repository runs in.
"""
import array
import decimal
import gc
import gzip
import io
import json
import os
import random
import re
import resource
import signal
import sys
import zlib
from fractions import Fraction
from xml.dom import minidom

import py2compat

# limits no sound program comes near to; a program beyond them ends the
# process, and what is left is run by a new one
MEMORY = 5 << 30
SICK = 3
LONG = 16 << 20
TOTAL = 60 << 20
REPO = os.environ.get("CLF_REPO", "/repo")
py2compat.REPO = os.path.realpath(REPO)
sys.path.insert(0, os.path.join(REPO, "python"))

import numpy as np
np.seterr(all="ignore")
import warnings
warnings.simplefilter("ignore")

import aces.clf as clf
import aces.clf.Common as clfCommon
import aces.clf.Array as clfArray

ENCODINGS_HEX = {"hex16bit": 16, "hex32bit": 32, "hex64bit": 64}
TEXT_TAGS = {"Comment", "Description", "InputDescriptor", "OutputDescriptor",
             "AppRelease", "Copyright", "Release"}


class Hang(Exception):
    pass


def on_alarm(signum, frame):
    raise Hang()


# ---------------------------------------------------------------- numbers
def tok(x):
    """exact token of a number"""
    x = float(x)
    if x != x:
        return "nan"
    if x == float("inf"):
        return "inf"
    if x == float("-inf"):
        return "-inf"
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else "%d/%d" % (n, d)


def ztok(x):
    x = float(x)
    return "-0" if x == 0 and str(x) == "-0.0" else tok(x)


def num(t):
    """number of a token; whole-number tokens are Python integers"""
    if t == "-0":
        return -0.0
    if t in ("nan", "inf", "-inf"):
        return float(t)
    if "/" in t:
        n, d = t.split("/")
        return int(n) / int(d)
    try:
        return int(t)
    except ValueError:
        return float(t)


def fnum(t):
    return float(num(t))


def attr_value(a):
    if a["t"] == "b":
        return a["v"] == "True"
    if a["t"] == "n":
        return num(a["v"])
    return a["v"]


def logged_attr(v):
    if v is None:
        return {"t": "none", "v": ""}
    if isinstance(v, (bool, np.bool_)):
        return {"t": "b", "v": str(bool(v))}
    if isinstance(v, (int, float, np.number)):
        return {"t": "n", "v": tok(v)}
    return {"t": "s", "v": str(v)}


def gen_values(g, ch):
    out = []
    halves = np.arange(65536, dtype=np.uint16).view(np.float16).astype(np.float64)
    a = [fnum(x) for x in g["a"]]
    b = [fnum(x) for x in g["b"]]
    s = [fnum(x) for x in g["s"]]
    for k in range(65536):
        h = float(halves[k])
        finite = (k & 0x7fff) < 31744
        for c in range(ch):
            out.append(a[c] * h + b[c] + s[c] * (k % 7) if finite else float(k % 1024))
    return out


# ---------------------------------------------------------------- documents
def type_name(tag):
    return tag[tag.find("}") + 1:].split(":")[-1].replace("-", "").replace("_", "")


def raw_of(e, most=5000):
    attrs = {k: v for k, v in e.attributes.items()}
    text = "".join(c.data for c in e.childNodes if c.nodeType in (c.TEXT_NODE, c.CDATA_SECTION_NODE))
    kids = [raw_of(c, most) for c in e.childNodes if c.nodeType == c.ELEMENT_NODE]
    name = type_name(e.tagName)
    r = {"tag": e.tagName, "attrs": attrs, "text": "", "toks": [], "form": "dec", "gen": [], "big": [], "kids": kids}
    if name in TEXT_TAGS:
        r["text"] = text
        return r
    words = text.split()
    if name == "IndexMap":
        words = [w for p in words for w in p.split("@")]
    hexw = ENCODINGS_HEX.get(attrs.get("floatEncoding", ""), 0)
    if name == "Array" and hexw and words and all(len(w) == hexw // 4 for w in words):
        try:
            words = [str(int(w, 16)) for w in words]
            r["form"] = "hex"
        except ValueError:
            pass
    if len(words) > most:
        # too long to log in full: a spread of positions
        n = len(words)
        idx = sorted(set([1, 2, 3, n - 2, n - 1, n] + list(range(1, n + 1, max(1, n // 700))) +
                         [k for k in (31743, 31744, 31745, 31746, 32768, 32769, 64511, 64512, 64513) if k <= n]))
        r["big"] = [{"n": n, "idx": idx, "val": [words[i - 1] for i in idx]}]
    else:
        r["toks"] = words
    return r


def load_doc(path, most=5000):
    with open(path, "rb") as f:
        data = f.read()
    gz = data[:2] == b"\x1f\x8b"
    if gz:
        data = gzip.decompress(data)
    return raw_of(minidom.parseString(data).documentElement, most), gz


def esc(t, q=False):
    t = t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return t.replace('"', "&quot;") if q else t


class Layout:
    """the ways to put the same document into a file; style 0 is the plain one"""
    def __init__(self, style):
        self.r = random.Random(style)
        self.plain = style == 0
        self.end = "\n" if self.plain else self.r.choice(["\n", "\n", "", "\r\n", "\n\n   "])
        self.gap = " " if self.plain else self.r.choice([" ", "\n", "  ", "\t", "\n      "])
        self.code = "utf-8" if self.plain else self.r.choice(["utf-8", "utf-8", "utf-8-sig", "utf-16", "iso-8859-1"])
        self.upper = not self.plain and self.r.random() < 0.3

    def often(self, p):
        return not self.plain and self.r.random() < p

    def words(self, words, numbers):
        if numbers:
            words = [self.number(w) for w in words]
        lead, tail = ("\n   ", "\n") if self.often(0.3) else ("", "")
        if words and self.often(0.2):
            # lines of three
            return lead + "\n".join(self.gap.join(words[i:i + 3]) for i in range(0, len(words), 3)) + tail
        return lead + self.gap.join(words) + tail

    def number(self, w):
        if not self.often(0.2) or not re.match(r"-?\d*\.\d+$", w):
            return w
        how = self.r.randrange(4)
        if how == 0:
            return "{:e}".format(decimal.Decimal(w)).replace("e", self.r.choice("eE"))
        if how == 1:
            return w if w.startswith("-") else "+" + w
        return w + "0" if how == 2 else w.replace("0.", ".", 1) if w.startswith("0.") else w

    def attr(self, k, v):
        v = esc(v, True)
        if self.often(0.3):
            return "\n %s = '%s'" % (k, v.replace("'", "&#39;"))
        return ' %s="%s"' % (k, v)

    def text(self, t):
        if self.often(0.3) and "]]>" not in t and "\r" not in t and (self.code != "iso-8859-1" or all(ord(c) < 128 for c in t)):
            k = self.r.randint(0, len(t))
            return esc(t[:k]) + "<![CDATA[" + t[k:] + "]]>"
        if self.often(0.2):
            return "".join("&#%d;" % ord(c) for c in t)
        return esc(t)

    def note(self):
        return "<!-- a <Range> note -->" + self.end if self.often(0.15) else "<?tool hint?>" if self.often(0.05) else ""

    def file(self, r):
        name = {"utf-8-sig": "utf-8"}.get(self.code, self.code)
        head = '<?xml version="1.0" encoding="%s"?>\n' % name.upper() if self.code in ("iso-8859-1",) or not self.often(0.3) else ""
        return (head + self.note() + self.dump(r)).encode(self.code, "xmlcharrefreplace")

    def dump(self, r, depth=0):
        pad = "" if self.end == "" else "    " * depth
        words = list(r["toks"])
        name = type_name(r["tag"])
        coded = dict(r["attrs"]).get("floatEncoding", "")
        hexw = ENCODINGS_HEX.get(coded, 0)
        if name == "Array" and hexw and r["form"] == "hex":
            words = [("%0*X" if self.upper else "%0*x") % (hexw // 4, int(w)) for w in words]
        if name == "IndexMap":
            words = ["%s@%s" % p for p in zip(words[0::2], words[1::2])]
        attrs = "".join(self.attr(k, v) for k, v in dict(r["attrs"]).items())
        text = self.text(r["text"]) if r["text"] else self.words(words, name != "IndexMap" and not coded)
        if not r["kids"]:
            if not text and self.often(0.5):
                return "%s<%s%s />%s" % (pad, r["tag"], attrs, self.end)
            return "%s<%s%s>%s</%s%s>%s" % (pad, r["tag"], attrs, text, r["tag"], " " if self.often(0.1) else "", self.end)
        return "%s<%s%s>%s%s%s%s</%s>%s" % (pad, r["tag"], attrs, text, self.end,
                                            "".join(self.note() + self.dump(k, depth + 1) for k in r["kids"]), pad, r["tag"], self.end)


# ---------------------------------------------------------------- operations
CTORS = {"Range": clf.Range, "Matrix": clf.Matrix, "LUT1D": clf.LUT1D, "LUT3D": clf.LUT3D,
         "ASC_CDL": clf.ASCCDL, "ColorCorrection": clf.ColorCorrection,
         "ExposureContrast": clf.ExposureContrast, "Gamma": clf.Gamma, "Log": clf.Log,
         "Reference": clf.Reference, "Group": clf.Group}


# the order of the parameters of the constructors
ORDER = {"Range": ["style", "defaultRange"], "LUT1D": ["interpolation", "rawHalfs", "halfDomain"], "LUT3D": ["interpolation"],
         "ASC_CDL": ["style"], "ExposureContrast": ["style"], "Gamma": ["style"], "Log": ["style"], "Reference": ["path", "basePath", "alias"]}


def spread(type_, args, way):
    """arguments by name, by position, or some of each"""
    if way == 0:
        return [], args
    args = dict(args)
    order = ["inBitDepth", "outBitDepth", "id", "name"]
    by = [args.pop(k, d) for k, d in zip(order, ["16f", "16f", "", ""])]
    if way == 2:
        for k in ORDER.get(type_, []):
            if k not in args:
                break
            by.append(args.pop(k))
    return by, args


class World:
    def __init__(self):
        self.objs = {}
        self.kept = []
        clf.setFeatureCompatibility(15)

    def register(self, oid, o):
        self.objs[oid] = o
        kids = o.getProcesses() if hasattr(o, "getProcesses") else []
        for i, k in enumerate(kids):
            self.register("%s.%d" % (oid, i + 1), k)

    def call(self, o, c):
        m = c["m"]
        islist = isinstance(o, clf.ProcessList)
        if m == "setAttribute":
            o.setAttribute(c["k"], attr_value(c["v"]))
        elif m in ("setMinInValue", "setMaxInValue", "setMinOutValue", "setMaxOutValue", "setSaturation"):
            getattr(o, m)(num(c["vals"][0] if "vals" in c else c["n"]))
        elif m == "setDefaultRange":
            o.setDefaultRange(c["b"])
        elif m == "addValueElement":
            o.addValueElement(c["k"], num(c["n"]))
        elif m == "addDescription":
            o.addElement(clf.Description(c["s"]))
        elif m == "addInputDescriptor":
            o.addElement(clf.InputDescriptor(c["s"]))
        elif m == "addOutputDescriptor":
            o.addElement(clf.OutputDescriptor(c["s"]))
        elif m == "addInfo":
            o.addElement(clf.Info(appRelease=c["s"], copyright=c["t"]))
        elif m == "setMatrix":
            o.setMatrix(list(c["dims"]), self.seq([num(t) for t in c["vals"]]), *self.enc(c))
        elif m == "setArray":
            vals = gen_values(c["gen"], c["ch"]) if "gen" in c else [num(t) for t in c["vals"]]
            o.setArray(list(c["dims"]) if "dims" in c else c["ch"], vals if "gen" in c else self.seq(vals), *self.enc(c))
        elif m == "setIndexMaps":
            o.setIndexMaps(*[[[num(t) for t in mp["keys"]], [num(t) for t in mp["vals"]]] for mp in c["maps"]])
        elif m in ("setSlope", "setOffset", "setPower", "setExposureContrastPivot"):
            getattr(o, m)(*[num(t) for t in c["vals"]])
        elif m in ("setGamma", "setLogParams"):
            vals = [num(t) for t in c["vals"]]
            if c["ch"]:
                getattr(o, m)(*vals, channel=c["ch"])
            else:
                getattr(o, m)(*vals)
        else:
            getattr(o, m)(c["s"])

    @staticmethod
    def seq(vals):
        """the sequence as a list, a tuple or an array"""
        way = zlib.crc32(repr(vals).encode()) % 4
        return tuple(vals) if way == 1 else np.array(vals, np.float64) if way == 2 else vals

    @staticmethod
    def enc(c):
        return [] if c["enc"] == "string" else [c["enc"]]

    def get(self, o, op):
        w = op["what"]
        ints = lambda s: {"t": "ints", "v": [int(x) for x in s]}
        nums = lambda s: {"t": "nums", "v": [tok(x) for x in s]}
        one = lambda i: {"t": "i", "v": int(i)}
        if w == "attr":
            return logged_attr(o.getAttribute(op["k"]))
        if w == "name":
            return logged_attr(o.getName() if isinstance(o, clf.ProcessList) else o.getAttribute("name"))
        if w == "id":
            return logged_attr(o.getID() if isinstance(o, clf.ProcessList) else o.getAttribute("id"))
        if w == "namespace":
            return logged_attr(o.getNamespace())
        if w == "inverseOf":
            return logged_attr(o.getInverseOf())
        if w == "version":
            return logged_attr(o.getCompCLFversion())
        if w == "inBitDepth":
            return logged_attr(o.getInBitDepth())
        if w == "outBitDepth":
            return logged_attr(o.getOutBitDepth())
        if w == "len":
            return one(len(o) if isinstance(o, clf.ProcessList) else len(o.getProcesses()))
        show = lambda n: "%s:%s" % (n.getNodeType(), "" if n.getAttribute("name") is None else n.getAttribute("name"))
        if w == "at":
            try:
                return {"t": "strs", "v": [show(o[op["i"]])]}
            except IndexError:
                return {"t": "strs", "v": ["IndexError"]}
        if w == "slice":
            return {"t": "strs", "v": [show(n) for n in o[op["a"]:op["b"]]]}
        if w == "pairs":
            return {"t": "strs", "v": [show(m) + show(n) for m in o for n in o]}
        if w == "holds":
            return one(len([n for n in o if n is self.objs[op["node"]]]))
        if w == "members":
            direct = [show(n) for n in o.getProcesses()]
            if isinstance(o, clf.ProcessList):
                if [show(n) for n in o] != direct or [show(o[i]) for i in range(len(o))] != direct:
                    return {"t": "strs", "v": ["iteration, indexing and getProcesses disagree"]}
            return {"t": "strs", "v": direct}
        if w == "find":
            n = o.getProcess(op["k"])
            if n is None:
                return one(0)
            return one([i + 1 for i, p in enumerate(o.getProcesses()) if p is n][0])
        if w == "type":
            return {"t": "s", "v": o.getNodeType()}
        if w == "ve":
            v = o.getValueElement(op["k"])
            return logged_attr(v)
        if w == "dyn":
            return one(1 if o.getDynamicParam(op["k"]) else 0)
        if w == "lutDims":
            return ints(o.getLUTDimensions())
        if w == "lutVals":
            return nums(o.getLUTValues())
        if w == "mapDim":
            return one(o.getIndexMapDimensions(op["i"] - 1))
        if w == "mapKeys":
            return nums(o.getIndexMapValues(op["i"] - 1)[0])
        if w == "mapVals":
            return nums(o.getIndexMapValues(op["i"] - 1)[1])
        raise KeyError(w)

    def sampled(self, op):
        din, dout = op["din"], op["dout"]
        if op["kind"] == "3d":
            f = [[fnum(t) for t in row] for row in op["f"]]
            fn = lambda x, y, z: [r[0] + r[1] * x + r[2] * y + r[3] * z + r[4] * x * y * z for r in f]
            return clf.simple3DLUT(op["nid"], op["name"], list(op["dims"]), fn, din, dout)
        c = [fnum(t) for t in op["f"]]
        if op["kind"] == "1d":
            fn = lambda x: c[0] + c[1] * x + c[2] * x * x
            return clf.simpleSampledLUT(op["nid"], op["name"], op["ch"], op["n"], fn, din, dout)

        def fn(x):
            code = int(np.float16(x).view(np.uint16))
            return c[0] + c[1] * float(x) if (code & 0x7fff) < 31744 else float(code % 1024)
        return clf.simpleSampledLUTHalfDomain(op["nid"], op["name"], op["ch"], fn, op["raw"], din, dout)

    def process(self, op):
        vals = [fnum(t) for t in op["vals"]]
        kind = op["seq"]
        if kind == "tuple":
            buf = tuple(vals)
        elif kind == "f32":
            buf = np.array(vals, np.float32)
        elif kind == "f64":
            buf = np.array(vals, np.float64)
        elif kind == "ints":
            buf = [int(v) if v == v and abs(v) < 1e9 and v == int(v) and str(v) != "-0.0" else v for v in vals]
        elif kind == "array":
            buf = array.array("d", vals)
        elif kind == "view":
            # every second value of a longer array
            buf = np.array([x for v in vals for x in (v, 7.0)], np.float32)[::2]
        elif kind == "frozen":
            buf = np.array(vals, np.float32)
            buf.setflags(write=False)
        elif kind == "swapped":
            buf = np.array(vals, ">f4")
        else:
            buf = list(vals)
        show = lambda b: (type(b).__name__, np.array(b, np.float64).tobytes())
        before = show(buf)
        o = self.objs[op["id"]]
        ret = {"ok": True, "vals": [], "same": True}
        try:
            if op.get("verbose"):
                out = o.process(buf, op["stride"], verbose=True)
            elif op["stride"] == 0:
                out = o.process(buf)
            else:
                out = o.process(buf, op["stride"])
            ret["vals"] = [tok(x) for x in out]
        except Hang:
            raise
        except Exception as e:
            ret["ok"] = False
            ret["err"] = err_name(e)
        # neither this input nor what earlier calls took and gave changes
        ret["same"] = show(buf) == before and all(show(b) == was for b, was in self.kept)
        self.kept = (self.kept + [(buf, before)] + ([(out, show(out))] if ret["ok"] else []))[-6:]
        return ret

    def printed(self, op):
        """sys.stdout is a buffer of its own for every operation"""
        if op["clf"]:
            old, sys.argv = sys.argv, ["clfinfo", "-c", op["clf"]]
            try:
                tool("clfinfo")["main"]()
            finally:
                sys.argv = old
        else:
            self.objs[op["id"]].printInfo()
        out = []
        for line in sys.stdout.getvalue().split("\n"):
            w = line.split()
            n = []
            for x in line.replace("[", " ").replace("]", " ").replace(",", " ").replace("(", " ").replace(")", " ").split():
                try:
                    n.append(tok(float(x)))
                except ValueError:
                    pass
            if w:
                out.append({"w": w, "n": n})
        return {"ok": True, "lines": out}

    def convert(self, op):
        out = []
        for t in op["args"]:
            fn = op["fn"]
            if fn == "normalize":
                v = tok(clf.bitDepthToNormalized(fnum(t), op["depth"]))
            elif fn == "scale":
                v = tok(clf.normalizedToBitDepth(fnum(t), op["depth"]))
            else:
                f = getattr(clfCommon, fn)
                bits = {"half": 16, "uint16": 16, "float32": 32, "uint32": 32, "double": 64, "uint64": 64}
                if fn.startswith("hexTo"):
                    w = {"hexToHalf": 4, "hexToFloat32": 8, "hexToDouble": 16}[fn]
                    v = ztok(f(("%0*X" if op.get("upper") else "%0*x") % (w, int(t))))
                elif fn.startswith("uint"):
                    v = ztok(f(int(t)))
                elif fn.endswith("Hex"):
                    v = str(int(f(fnum(t)), 16))
                else:
                    v = str(int(f(fnum(t))))
            out.append(v)
        return {"ok": True, "vals": out}

    def run(self, op):
        k = op["op"]
        if k == "feats":
            clf.setFeatureCompatibility(op["v"])
        elif k == "list":
            self.objs[op["id"]] = clf.ProcessList()
        elif k == "node":
            args = {a: attr_value(v) for a, v in dict(op["args"]).items()}
            late = {a: args.pop(a) for a in list(args) if a == "bypass"}
            by, named = spread(op["type"], args, zlib.crc32(json.dumps(op).encode()) % 3)
            o = CTORS[op["type"]](*by, **named)
            for a, v in late.items():
                if v:
                    o.setAttribute(a, v)
            self.objs[op["id"]] = o
            for c in op["calls"]:
                self.call(o, c)
        elif k == "sampled":
            self.objs[op["id"]] = self.sampled(op)
        elif k == "call":
            for c in op["calls"]:
                self.call(self.objs[op["id"]], c)
        elif k == "add":
            self.objs[op["id"]].addProcess(self.objs[op["node"]])
        elif k == "process":
            return self.process(op)
        elif k == "write":
            before = slurp(op["path"])
            try:
                self.objs[op["id"]].writeFile(op["path"], writeSelfContained=op["sc"], writeGzip=op["gz"])
            except Hang:
                raise
            except Exception as e:
                return {"ok": False, "err": err_name(e), "same": slurp(op["path"]) == before}
            doc, gz = load_doc(op["path"])
            return {"ok": True, "doc": doc, "gz": gz}
        elif k == "put":
            data = Layout(op.get("style", 0)).file(op["doc"])
            folder = os.path.dirname(op["path"])
            if folder and not os.path.isdir(folder):
                os.makedirs(folder)
            with open(op["path"], "wb") as f:
                f.write(gzip.compress(data) if op["gz"] else data)
        elif k == "drop":
            for i in op["ids"]:
                del self.objs[i]
            gc.collect()
        elif k == "junk":
            with open(op["path"], "wb") as f:
                f.write(b"this is not XML\n")
        elif k == "del":
            os.remove(op["path"])
        elif k == "read":
            self.register(op["id"], clf.ProcessList(op["path"], op["strict"]))
        elif k == "get":
            return {"ok": True, "v": self.get(self.objs[op["id"]], op)}
        elif k == "print":
            return self.printed(op)
        elif k == "arrayenc":
            a = clfArray.Array([2, 1])
            try:
                a.setFloatEncoding(op["enc"])
            except Exception as e:
                return {"ok": False, "err": err_name(e), "v": str(a.getFloatEncoding())}
            return {"ok": True, "v": str(a.getFloatEncoding())}
        elif k == "convert":
            return self.convert(op)
        elif k in ("image", "filter"):
            return self.image(op)
        elif k in ("config", "ocio"):
            return self.ocio(op)
        elif k in ("putlut", "lutread", "lutwrite", "lut2clf", "caps"):
            return self.lut(op)
        else:
            raise KeyError(k)
        return {"ok": True}

    def ocio(self, op):
        import luts
        import ocio
        luts.features(15)
        if op["op"] == "config":
            ocio.put(op, num)
            return {"ok": True}
        before = aged(op["out"])
        ret = {"ok": True, "err": ""}
        try:
            ocio.run(op)
        except Hang:
            raise
        except Exception as e:
            ret = {"ok": False, "err": err_name(e)}
        after = slurp(op["out"])
        ret.update(same=after == before, some=after is not None and touched(op["out"]))
        if ret["some"]:
            ret["doc"] = load_doc(op["out"])[0]
        return ret

    def image(self, op):
        import images
        if op["op"] == "image":
            images.put(op, num)
            return {"ok": True}
        before, source = aged(op["out"]), slurp(op["in"])
        ret = {"ok": True, "err": ""}
        try:
            images.run(self, op)
        except Hang:
            raise
        except Exception as e:
            ret = {"ok": False, "err": err_name(e)}
        after = slurp(op["out"])
        ret.update(same=after == before, some=after is not None and touched(op["out"]),
                   insame=op["in"] == op["out"] or slurp(op["in"]) == source)
        if ret["ok"] and ret["some"]:
            ret["img"] = images.get(op["out"], tok)
            ret["some"] = ret["img"] is not None
        return ret

    def lut(self, op):
        import luts
        k = op["op"]
        luts.features(15)
        if k == "putlut":
            if os.path.dirname(op["path"]):
                os.makedirs(os.path.dirname(op["path"]), exist_ok=True)
            with open(op["path"], "w", newline="") as f:
                f.write(luts.dump(op))
            return {"ok": True}
        if k == "caps":
            return {"ok": True, "v": luts.caps(op)}
        target = op["clf"] if k == "lut2clf" else op["path"]
        before = aged(target)
        if k == "lutread":
            o = luts.read(self, op)
            if o is not None:
                self.register(op["id"], o)
            return {"ok": True, "some": o is not None, "same": slurp(target) == before}
        if k == "lut2clf":
            luts.to_clf(op)
            after = slurp(target)
            return {"ok": True, "some": after is not None and touched(target), "same": after == before}
        luts.write(self, op, num)
        after = slurp(target)
        ret = {"ok": True, "some": after is not None and touched(target), "same": after == before}
        if ret["some"]:
            ret["file"] = luts.parse(target, load_doc)
            ret["doc"] = ret["file"].pop("doc", {})
        return ret


TOOLS = {}


def tool(name):
    """the functions of a script in python/bin"""
    if name not in TOOLS:
        import runpy
        TOOLS[name] = runpy.run_path(os.path.join(REPO, "python", "bin", name), run_name=name)
    return TOOLS[name]


def slurp(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except IOError:
        return None


OLD = 1000000000


def aged(path):
    """the content of a file, which is made to look old"""
    if os.path.exists(path):
        os.utime(path, (OLD, OLD))
    return slurp(path)


def touched(path):
    """whether the file was written since"""
    return os.path.exists(path) and os.stat(path).st_mtime != OLD


def err_name(e):
    n = type(e).__name__
    return n if n in ("UnsupportedExtensionError", "UnknownProcessNodeError") else "other:%s: %s" % (n, str(e)[:120])


def listing():
    """the files below the working folder, and what tells that one changed"""
    out = {}
    for folder, folders, files in os.walk("."):
        # what images.py keeps for itself
        folders[:] = [f for f in folders if f != "rows"]
        for f in folders:
            out[os.path.normpath(os.path.join(folder, f))] = ()
        for f in files:
            p = os.path.join(folder, f)
            st = os.lstat(p)
            out[os.path.normpath(p)] = (st.st_size, st.st_mtime_ns, st.st_ino)
    return out


SETUP = ("put", "putlut", "junk", "del", "image", "config")


def changed(op, before, after):
    """the files an operation made, changed or removed, spelled as the operation spells them"""
    own = {os.path.normpath(op[k]): op[k] for k in ("path", "clf", "in", "out") if isinstance(op.get(k), str) and op[k]}
    return [own.get(p, p) for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p)]


def clean():
    for folder, folders, files in os.walk(".", topdown=False):
        for f in files:
            os.remove(os.path.join(folder, f))
        for f in folders:
            os.rmdir(os.path.join(folder, f))


def main(src, dst, scratch):
    src, dst = os.path.abspath(src), os.path.abspath(dst)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    signal.signal(signal.SIGALRM, on_alarm)
    real = sys.stdout
    longest = written = 0
    print("DRIVER-READY")
    sys.stdout.flush()
    with open(src) as fin, open(dst, "w") as fout:
        for line in fin:
            prog = json.loads(line)
            w = World()
            sick = ""
            for k, op in enumerate(prog["h"]):
                sys.stdout = io.StringIO()
                if op["op"] in ("write", "lutwrite") and os.path.dirname(op["path"]):
                    os.makedirs(os.path.dirname(op["path"]), exist_ok=True)
                before = None if op["op"] in SETUP else listing()
                signal.alarm(200)
                try:
                    op["ret"] = w.run(op)
                except Hang:
                    sick = "no answer"
                except Exception as e:
                    sick = "out of memory" if isinstance(e, MemoryError) else ""
                    op["ret"] = {"ok": False, "err": err_name(e), "same": True}
                finally:
                    signal.alarm(0)
                    sys.stdout = real
                if sick:
                    prog["h"] = prog["h"][:k + 1]
                    break
                if before is not None:
                    files = changed(op, before, listing())
                    if files:
                        op["ret"]["files"] = files
            text = "" if sick else json.dumps(prog)
            longest = max(longest, len(text))
            written += len(text) - (len(line) + (LONG >> 4))
            if sick or len(text) > LONG or written > TOTAL:
                text = json.dumps({"sick": "%s: operation %d" % (sick or "endless answers", len(prog["h"]))})
                sick = True
            fout.write(text + "\n")
            fout.flush()
            clean()
            if sick:
                os._exit(SICK)
            with open("/proc/self/statm") as f:
                if int(f.read().split()[1]) > 200000:
                    gc.collect()
    print("longest answer %d" % longest)
    print("peak %d kB" % resource.getrusage(resource.RUSAGE_SELF).ru_maxrss)


if __name__ == "__main__":
    main(*sys.argv[1:4])
