"""Seeded random programs for the library, one profile per property.

gen.py PROPERTY SEED COUNT OUT writes COUNT lines {"h": [operation, ...]}.
The numbers are kept where the specification says something: no division by
zero, whole pixels only, at least three channels for the nodes that need them.
"""
import json
import math
import random
import struct
import sys

DEPTHS = ["8i", "10i", "12i", "16i", "16f", "32f"]
SIZE = {"8i": 255, "10i": 1023, "12i": 4095, "16i": 65535, "16f": 1, "32f": 1}
TYPES = ["Range", "Matrix", "LUT1D", "LUT3D", "ASC_CDL", "ColorCorrection", "Gamma", "Log", "ExposureContrast"]
NEED3 = {"LUT3D", "Gamma", "Log", "ExposureContrast"}
ENCS = ["integer16bit", "integer32bit", "integer64bit", "hex16bit", "hex32bit", "hex64bit"]
CDL_STYLES = ["Fwd", "Rev", "FwdNoClamp", "RevNoClamp", "v1.2_Fwd", "v1.2_Rev", "noClampFwd", "noClampRev"]
LOG_STYLES = ["log10", "log2", "antiLog10", "antiLog2", "logToLin", "linToLog"]
TEXTS = ["plain", "two words", "a<b & c>d", "quote \" and ' marks", "naïve café", "色空間", "x;y=z/%s", "tail."]

NOTES = ["first line\n  second  line", "  spaces around  ", "tab\there", "three\n\nlines\n", "a  b"]

S = lambda v: {"t": "s", "v": v}
B = lambda v: {"t": "b", "v": "True" if v else "False"}


def dec(x, places=4):
    t = "%.*f" % (places, x)
    t = t.rstrip("0").rstrip(".")
    return "0" if t in ("", "-0", "-") else t


def f32tok(x):
    return frac(struct.unpack("f", struct.pack("f", x))[0])


def frac(x):
    n, d = float(x).as_integer_ratio()
    return str(n) if d == 1 else "%d/%d" % (n, d)


def half(code):
    return struct.unpack("<e", struct.pack("<H", code))[0]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ops = []
        self.n = 0
        self.notes = TEXTS
        self.wide = False

    # ------------------------------------------------------------ numbers
    def chance(self, p):
        return self.r.random() < p

    def pick(self, s):
        return self.r.choice(s)

    def num(self, lo, hi, places=None):
        """between lo and hi, with few or many digits"""
        if places is None:
            places = self.pick([4, 4, 4, 4, 2, 1, 6, 7, 9])
            if lo <= 0 <= hi and self.chance(0.03):
                t = dec(self.pick([-1, 1]) * self.r.uniform(1, 10) * 10.0 ** -self.r.randint(3, 7), 10)
                return t if lo <= float(t) <= hi else "0"
        t = dec(self.r.uniform(lo, hi), places)
        return t if lo <= float(t) <= hi else dec((lo + hi) / 2)

    def wider(self, lo, hi, least, most):
        """between lo and hi; of any size from least to most in a wide program"""
        if not self.wide or self.chance(0.5):
            return self.num(lo, hi)
        x = math.exp(self.r.uniform(math.log(least), math.log(most)))
        return dec(-x if lo < 0 and self.chance(0.5) else x, 9)

    def widers(self, n, *a):
        return [self.wider(*a) for _ in range(n)]

    def nums(self, n, lo, hi, places=None):
        return [self.num(lo, hi, places) for _ in range(n)]

    def unit(self, wild=0.3):
        """an input value around [0,1]"""
        if self.wide and self.chance(0.3):
            x = 10 ** self.r.uniform(*self.pick([(-8, 0), (-4, 0), (0, 2), (0, 4.5)]))
            return dec(-x if self.chance(0.3) else x, 10)
        r = self.r.random()
        if r < 0.15:
            return self.pick(["0", "1", "0.5", "0.25", "0.18"])
        if r < 0.15 + wild:
            return self.num(-1.5, 2.5)
        return self.num(0, 1, self.pick([2, 4, 6]))

    def value(self, depth="16f", wild=0.3):
        v = self.unit(wild)
        k = SIZE[depth]
        if k == 1:
            return v
        if self.chance(0.3):
            return str(int(float(v) * k))
        return dec(float(v) * k)

    def pixels(self, n, ch, depth="16f", wild=0.3, extras=None):
        out = []
        for _ in range(n):
            grey = self.chance(0.3 if self.wide else 0.05)
            for c in range(ch):
                if c >= 3 and extras:
                    out.append(self.pick(extras))
                elif grey and 1 <= c <= 2:
                    # grey, or all but grey
                    out.append(self.pick([out[-1], self.twin(out[-1:])[0]]))
                else:
                    out.append(self.value(depth, wild))
        return out

    # ------------------------------------------------------------ operations
    def id(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def add(self, **op):
        self.ops.append(op)
        return op

    def list(self, nodes=(), lid=None, calls=()):
        lid = lid or self.id("L")
        self.add(op="list", id=lid)
        for n in nodes:
            self.add(op="add", id=lid, node=n)
        if calls:
            self.add(op="call", id=lid, calls=list(calls))
        return lid

    def node(self, type_, args=None, calls=(), **kw):
        nid = self.id("n")
        a = dict(args or {})
        for k, v in kw.items():
            if v is not None:
                a[k] = S(v) if isinstance(v, str) else B(v)
        self.add(op="node", id=nid, type=type_, args=a, calls=[c for c in calls if c])
        return nid

    def process(self, lid, vals, stride=0, seq="list", **kw):
        if seq in ("list", "f32") and self.chance(0.2):
            seq = self.pick(["ints", "ints", "array", "view", "frozen", "swapped"])
        self.add(op="process", id=lid, vals=vals, stride=stride, seq=seq, **kw)

    def depth(self, p_int=0.5):
        return self.pick(DEPTHS[:4]) if self.chance(p_int) else self.pick(DEPTHS[4:])

    def depths(self, p_int=0.5):
        return {"inBitDepth": S(self.depth(p_int)), "outBitDepth": S(self.depth(p_int))}

    def names(self):
        a = {}
        if self.chance(0.5):
            a["name"] = S(self.pick(TEXTS))
        if self.chance(0.3):
            a["id"] = S("id%d" % self.r.randrange(100))
        return a

    # ------------------------------------------------------------ nodes
    def range_(self, a=None, subset=None, style="?", default="?"):
        a = dict(self.depths() if a is None else a)
        di = SIZE[a.get("inBitDepth", S("16f"))["v"]]
        do = SIZE[a.get("outBitDepth", S("16f"))["v"]]
        if subset is None:
            subset = self.pick([0, 15, 15, 15, 5, 10, 1, 2, 4, 8, 3, 12, 7, 11, 13, 14])
        lo, hi = sorted([self.r.uniform(-0.5, 0.6), self.r.uniform(0.61, 1.6)])
        olo, ohi = self.r.uniform(-0.6, 0.7), self.r.uniform(0.3, 1.7)
        if self.wide and self.chance(0.6):
            lo = float(self.wider(-0.5, 0.6, 0.001, 30))
            hi = lo + abs(float(self.wider(0.2, 1, 0.01, 100)))
            olo, ohi = (float(self.wider(-1, 1, 0.0001, 200)) for _ in range(2))
        if self.chance(0.25):
            lo, hi, olo, ohi = 0, 1, 0, 1
        if self.chance(0.1) and subset & 3 == 3:
            lo, hi = hi, lo
        calls = []
        for bit, m, v, k in ((1, "setMinInValue", lo, di), (2, "setMaxInValue", hi, di),
                             (4, "setMinOutValue", olo, do), (8, "setMaxOutValue", ohi, do)):
            if subset & bit:
                calls.append({"m": m, "n": dec(v * k)})
        if style == "?":
            style = self.pick([None, "clamp", "noClamp", "other"])
        if default == "?":
            default = self.pick([None, None, True, False])
        if style is not None:
            a["style"] = S(style)
        if default is not None:
            a["defaultRange"] = B(default)
        return self.node("Range", a, calls)

    def structured(self, r, c, kind=None):
        """a matrix with a shape that code may want to treat by itself"""
        kind = kind or self.pick(["identity", "scale", "diagonal", "swap", "zero", "upper", "lower", "cancel", "rows", "symmetric",
                                  "equal", "almost", "offsets", "columns"])
        n = min(r, c)
        x = lambda: self.r.randint(-64, 64) / 32.0
        m = [[0.0] * c for _ in range(r)]
        if kind in ("identity", "scale", "almost", "offsets"):
            k = x() if kind == "scale" else 1.0
            for i in range(n):
                m[i][i] = k
            if kind == "almost":
                m[self.r.randrange(r)][self.r.randrange(c)] += self.pick([0.5, -0.25, 0.0009765625])
        elif kind == "diagonal":
            for i in range(n):
                m[i][i] = x()
        elif kind == "swap":
            order = list(range(n))
            self.r.shuffle(order)
            for i, j in enumerate(order):
                m[i][j] = self.pick([1.0, 1.0, -1.0])
        elif kind in ("upper", "lower", "symmetric", "cancel"):
            for i in range(n):
                for j in range(i + 1):
                    v = x()
                    if kind != "upper":
                        m[i][j] = v
                    if kind != "lower":
                        m[j][i] = -v if kind == "cancel" and i != j else v
        elif kind == "rows":
            for i in range(r):
                m[i][:n] = [x() for _ in range(n)]
                m[i][self.r.randrange(n)] += 1 - sum(m[i][:n])
        elif kind == "equal":
            row = [x() for _ in range(c)]
            m = [list(row) for _ in range(r)]
        elif kind == "columns":
            j = self.r.randrange(c)
            for i in range(r):
                m[i][j] = x()
        if c > r and kind != "equal" and (kind == "offsets" or self.chance(0.4)):
            for i in range(r):
                m[i][c - 1] = x()
        return [dec(v, 10) for row in m for v in row]

    def matrix(self, a=None, dims=None, scale=1.0, enc="string"):
        a = self.depths() if a is None else a
        r, c = dims or self.pick([(3, 3), (3, 4), (4, 4), (4, 5), (2, 2), (1, 2)])
        vals = self.widers(r * c, -scale, scale, 1e-8, 1000)
        if self.chance(0.3):
            vals = self.structured(r, c)
        elif self.chance(0.3):
            vals = [str(self.r.randint(-2, 2)) for _ in vals]
        return self.node("Matrix", a, [{"m": "setMatrix", "dims": [r, c, self.pick([3, 4])], "vals": vals, "enc": enc}])

    def maps(self, entries, depth, k=None):
        out = []
        for _ in range(k or self.pick([1, 3])):
            n = self.pick([2, 2, 3, 4, 6])
            keys = sorted(set(round(self.r.uniform(-0.5, 1.6), 2) for _ in range(n)))
            while len(keys) < 2:
                keys = sorted(set(keys + [round(self.r.uniform(-0.5, 1.6), 2)]))
            vals = sorted(self.r.randint(0, entries - 1) for _ in keys)
            if self.chance(0.2):
                vals = [self.r.randint(0, entries - 1) for _ in keys]
            out.append({"keys": [dec(x * SIZE[depth]) for x in keys], "vals": [str(v) for v in vals]})
        return {"m": "setIndexMaps", "maps": out}

    def lut1d(self, a=None, n=None, ch=None, interp="?", maps=False, scale=1.0, enc="string", rough=None, extra=None):
        a = dict(self.depths() if a is None else a)
        n = n or self.pick([2, 2, 3, 4, 5, 8, 17])
        ch = ch or self.pick([1, 3])
        rough = self.chance(0.5) if rough is None else rough
        if self.wide and scale == 1.0:
            scale = self.pick([1.0, 1e-3, 50.0, 5000.0])
        vals = []
        for i in range(n):
            for c in range(ch):
                v = self.r.uniform(-0.2, 1.3) if rough else i / (n - 1) + self.r.uniform(-0.05, 0.05)
                vals.append(dec(v * scale))
        if interp == "?":
            interp = self.pick([None, "linear", "cubic", ""])
        if interp is not None:
            a["interpolation"] = S(interp)
        calls = [{"m": "setArray", "ch": ch, "vals": vals, "enc": enc}]
        if maps:
            calls.insert(self.r.randrange(2), self.maps(n, a.get("inBitDepth", S("16f"))["v"]))
        a.update(extra or {})
        return self.node("LUT1D", a, calls)

    def halfdomain(self, a=None, ch=None, saw=None, raw=None, enc="string", dyadic=False):
        a = dict({"inBitDepth": S(self.depth(0.2)), "outBitDepth": S(self.depth(0.2))} if a is None else a)
        ch = ch or self.pick([1, 3])
        a["halfDomain"] = B(True)
        if raw is not None:
            a["rawHalfs"] = B(raw)
        saw = self.chance(0.4) if saw is None else saw
        g = {"a": [self.pick(["1", "2", "0.5", "-1", "3"]) for _ in range(3)],
             "b": [self.pick(["0", "0", "0.25", "-0.5"]) for _ in range(3)],
             "s": [self.pick(["0.125", "0.5", "-0.25"]) if saw else "0" for _ in range(3)]}
        return self.node("LUT1D", a, [{"m": "setArray", "ch": ch, "gen": g, "enc": enc}])

    def lut3d(self, a=None, dims=None, interp="?", maps=False, enc="string", rough=None):
        a = dict(self.depths() if a is None else a)
        dims = dims or self.pick([[2, 2, 2], [3, 3, 3], [2, 3, 4], [4, 3, 2], [3, 2, 5], [2, 4, 2], [5, 5, 5]])
        rough = self.chance(0.7) if rough is None else rough
        vals = []
        for i in range(dims[0]):
            for j in range(dims[1]):
                for k in range(dims[2]):
                    p = (i / (dims[0] - 1), j / (dims[1] - 1), k / (dims[2] - 1))
                    for c in range(3):
                        vals.append(dec(self.r.uniform(-0.2, 1.2) if rough else p[c] ** 1.3))
        if interp == "?":
            interp = self.pick([None, "trilinear", "tetrahedral", "tetrahedral", "other"])
        if interp is not None:
            a["interpolation"] = S(interp)
        calls = [{"m": "setArray", "dims": list(dims), "vals": vals, "enc": enc}]
        if maps:
            calls.insert(self.r.randrange(2), self.maps(min(dims), a.get("inBitDepth", S("16f"))["v"]))
        return self.node("LUT3D", a, calls)

    def cdl_calls(self, subset=15, tame=False):
        lo, hi = (0.8, 1.2) if tame else (0.5, 1.6)
        calls = []
        if subset & 1:
            calls.append({"m": "setSlope", "vals": self.widers(3, lo, hi, 0.01, 20)})
        if subset & 2:
            calls.append({"m": "setOffset", "vals": self.widers(3, -0.2, 0.2, 0.0001, 3)})
        if subset & 4:
            calls.append({"m": "setPower", "vals": self.widers(3, 0.5, 2.2, 0.1, 5)})
        if subset & 8:
            calls.append({"m": "setSaturation", "vals": [self.wider(0.3, 1.6, 0.02, 20)]})
        self.r.shuffle(calls)
        return calls

    def cdl(self, a=None, style="?", subset="?", type_="ASC_CDL"):
        a = dict(self.depths() if a is None else a)
        if subset == "?":
            subset = self.pick([15, 15, self.r.randrange(16)])
        if type_ == "ColorCorrection":
            return self.node("ColorCorrection", {}, self.cdl_calls(subset))
        if style == "?":
            style = self.pick([None] + CDL_STYLES + CDL_STYLES)
        if style is not None:
            a["style"] = S(style)
        return self.node("ASC_CDL", a, self.cdl_calls(subset))

    def per_channel(self, mk):
        """a sequence of parameter sets"""
        k = self.pick([0, 1, 1, 1, 2, 3, 4])
        chans = ["", "R", "G", "B"]
        if k == 1:
            return [mk(self.pick(["", "", "", "R", "G", "B"]))]
        return [mk(self.pick(chans)) for _ in range(k)]

    def gamma(self, a=None, style="?", params=None):
        a = dict(self.depths() if a is None else a)
        if style == "?":
            style = self.pick([None, "basicFwd", "basicRev", "moncurveFwd", "moncurveRev", "moncurveFwd", "moncurveRev"])
        mon = style is not None and style.startswith("moncurve")
        if style is not None:
            a["style"] = S(style)

        def one(ch):
            g = self.wider(1.2, 3, 1.01, 8) if mon or self.chance(0.7) else self.pick(["2", "3", "0.5", "0.4545", "1"])
            if mon and self.chance(0.06):
                return {"m": "setGamma", "vals": self.pick([["1", "0"], ["1", "0.25"], ["2.2", "0"]]), "ch": ch}
            return {"m": "setGamma", "vals": [g, self.wider(0.02, 0.3, 0.001, 2) if mon else "0"], "ch": ch}
        calls = self.per_channel(one)
        if mon and self.chance(0.7):
            # else some channels may be left alone
            calls = [one("")] + calls
        return self.node("Gamma", a, calls if params is None else params)

    def log(self, a=None, style="?"):
        a = dict(self.depths() if a is None else a)
        if style == "?":
            style = self.pick([None] + LOG_STYLES + ["linToLog", "logToLin"])
        if style is not None:
            a["style"] = S(style)

        def one(ch):
            return {"m": "setLogParams", "ch": ch,
                    "vals": [self.wider(0.4, 1, 0.1, 4), str(self.r.randint(500, 1020 if self.wide else 900)),
                             self.pick([str(self.r.randint(10, 200)), self.num(10, 400 if self.wide else 200, 1)]),
                             self.wider(0.7, 2, 0.5, 20), self.num(-0.1, 0.2)]}
        return self.node("Log", a, self.per_channel(one))

    def ec(self, a=None, style="?"):
        a = dict(self.depths() if a is None else a)
        if style == "?":
            style = self.pick([None, "linear", "video", "log"])
        if style is not None:
            a["style"] = S(style)
        calls = []
        for _ in range(self.pick([0, 1, 1, 1, 2])):
            calls.append({"m": "setExposureContrastPivot",
                          "vals": [self.pick(["0", self.wider(-2, 2, 0.001, 9)]), self.pick(["1", self.wider(0.5, 2, 0.05, 8)]), self.wider(0.05, 1.5, 0.001, 12)]})
        return self.node("ExposureContrast", a, calls)

    def alter(self, nid, toggle=0.25):
        """change something of a node that exists already"""
        op = [o for o in self.ops if o.get("id") == nid and o["op"] == "node"][0]
        t, r = op["type"], self.r.random()
        if t in ("Group", "Reference", "ColorCorrection") and r < 0.6 and t != "ColorCorrection" or self.chance(toggle):
            c = [{"m": "setAttribute", "k": "bypass", "v": self.pick([B(True), B(False)])}]
        elif r < 0.5 and t not in ("Group", "Reference", "ColorCorrection"):
            c = [{"m": self.pick(["setInBitDepth", "setOutBitDepth"]), "s": self.pick(DEPTHS)}]
        elif t == "Range":
            c = [{"m": "setStyle", "s": self.pick(["clamp", "noClamp"])}]
        elif t == "Matrix":
            d = op["calls"][0]["dims"]
            c = [{"m": "setMatrix", "dims": d, "vals": self.nums(d[0] * d[1], -1, 1), "enc": "string"}]
        elif t == "LUT1D" and not any("gen" in x or x["m"] == "setIndexMaps" for x in op["calls"]):
            ch = self.pick([1, 3])
            c = [{"m": "setArray", "ch": ch, "vals": self.nums(ch * self.pick([2, 3, 5]), -0.2, 1.3), "enc": "string"}]
        elif t == "LUT3D" and not any(x["m"] == "setIndexMaps" for x in op["calls"]):
            c = [{"m": "setArray", "dims": [2, 2, 2], "vals": self.nums(24, -0.2, 1.2), "enc": "string"}]
        elif t in ("ASC_CDL", "ColorCorrection"):
            c = self.cdl_calls(self.r.randint(1, 15))
        elif t == "Gamma":
            mon = op["args"].get("style", S(""))["v"].startswith("mon")
            c = [{"m": "setGamma", "vals": [self.num(1.2, 3), self.num(0.02, 0.3) if mon else "0"], "ch": self.pick(["", "R", "G", "B"])}]
        elif t == "ExposureContrast":
            c = [{"m": "setExposureContrastPivot", "vals": [self.num(-2, 2), self.num(0.5, 2), self.num(0.05, 1.5)]}]
        else:
            c = [{"m": "setAttribute", "k": "bypass", "v": B(self.chance(0.5))}]
        self.add(op="call", id=nid, calls=c)

    def churn(self, lid, nodes, ch, times=None, toggle=0.25):
        """change nodes of a list and process again"""
        for _ in range(times or self.pick([1, 2, 3])):
            for i in self.r.sample(nodes, min(len(nodes), self.pick([1, 1, 2]))):
                self.alter(i, toggle)
            if self.chance(0.2):
                self.add(op="add", id=lid, node=self.pick(nodes))
            self.process(lid, self.pixels(self.pick([1, 2]), ch, self.pick(["16f", "16f", "10i"]), 0.4), ch)

    def of_type(self, t, a=None, **kw):
        f = {"Range": self.range_, "Matrix": self.matrix, "LUT1D": self.lut1d, "LUT3D": self.lut3d,
             "ASC_CDL": self.cdl, "Gamma": self.gamma, "Log": self.log, "ExposureContrast": self.ec}
        if t == "ColorCorrection":
            return self.cdl(a, type_="ColorCorrection")
        return f[t](a, **kw)

    def tame(self, t=None, a=None):
        """a node that keeps values of order one, for long chains"""
        a = a if a is not None else dict({"inBitDepth": S(self.pick(DEPTHS[4:])), "outBitDepth": S(self.pick(DEPTHS[4:]))},
                                         **self.names())
        t = t or self.pick(TYPES)
        if t == "Log":
            return self.log(a, self.pick(["linToLog", "logToLin"]))
        if t == "Matrix":
            return self.matrix(a, self.pick([(3, 3), (3, 4), (4, 4), (4, 5)]))
        if t == "Range":
            return self.range_(a, subset=self.pick([0, 15, 15, 5, 10]))
        return self.of_type(t, a)

    def amplifier(self):
        """makes the smallest differences of the nodes before it show"""
        k = self.pick(["300", "1000", "-500"])
        return self.node("Matrix", {"inBitDepth": S("32f"), "outBitDepth": S("32f")},
                         [{"m": "setMatrix", "dims": [3, 3, 3], "vals": [k, "0", "0", "0", k, "0", "0", "0", k], "enc": "string"}])

    def twin(self, vals):
        """values that hardly differ from these"""
        e = 10.0 ** -self.pick([3, 4, 4.3, 4.6, 5, 5.5])
        return [dec(float(v) + self.pick([-1, 1]) * e * max(1.0, abs(float(v))), 9) for v in vals]

    def tame_ch(self):
        return self.pick([3, 3, 4, 5])

    # ------------------------------------------------------------ documents
    @staticmethod
    def el(tag, attrs=None, text="", toks=(), kids=(), form="dec"):
        return {"tag": tag, "attrs": dict(attrs or {}), "text": text, "toks": [str(t) for t in toks],
                "form": form, "gen": [], "big": [], "kids": list(kids)}

    # ------------------------------------------------------------ profiles
    def C01(self):
        ids = [self.tame() for _ in range(self.pick([0, 1, 2, 3, 3, 4, 5, 6]))]
        if ids and self.chance(0.3):
            ids.append(self.pick(ids))
        if ids and self.chance(0.2):
            g = self.node("Group", self.names())
            for i in ids[:2]:
                self.add(op="add", id=g, node=i)
            ids.append(g)
        twins = self.chance(0.4)
        if twins and self.chance(0.5):
            ids.insert(0, self.lut1d(maps=True))
        if twins:
            ids.append(self.amplifier())
        l = self.list(ids)
        plain = list(ids)
        seqs = ["list", "tuple", "f32", "f64"]
        first = None
        for k in range(self.pick([2, 3])):
            ch = self.tame_ch()
            n = self.pick([1, 1, 2])
            stride = 0 if n == 1 and self.chance(0.5) else ch
            op = dict(vals=self.pixels(n, ch), stride=stride, seq=self.pick(seqs))
            if self.chance(0.3):
                op["verbose"] = True
            self.process(l, **op)
            first = first or op
            if twins:
                self.process(l, self.twin(op["vals"]), op["stride"])
        self.process(l, first["vals"], first["stride"], self.pick(seqs))
        if plain and self.chance(0.35):
            self.churn(l, plain, self.tame_ch())

    def C02(self):
        t = self.pick(TYPES)
        ids = [self.of_type(t)]
        if self.chance(0.3):
            ids.append(self.tame())
        twins = self.chance(0.4)
        if twins:
            ids.append(self.amplifier())
        l = self.list(ids)
        lo = 3 if t in NEED3 or len(ids) > 1 else self.pick([1, 2, 3])
        ch = self.r.randint(lo, 6)
        d = "16f"
        n = self.pick([2, 3, 4, 6])
        px = [self.pixels(1, ch, d) for _ in range(n)]
        if twins:
            px[1:2] = [self.twin(px[0])]
        if self.chance(0.5):
            px[-1] = px[0]
        self.process(l, sum(px, []), ch, self.pick(["list", "f32"]))
        self.r.shuffle(px)
        self.process(l, sum(px, []), ch)
        self.process(l, px[0], 0)
        if self.chance(0.3):
            self.process(l, [], ch)
        if self.chance(0.2):
            self.churn(l, ids[:1], max(3, ch))

    EXTRAS = ["nan", "inf", "-inf", "0", "1", "-3", "123456", "0.5", "1/3", "1/65536", "-0", "3.4e38", "65504"]

    def C03(self):
        t = self.pick(["LUT1D", "LUT1D", "LUT3D", "Matrix", "ASC_CDL", "ColorCorrection", "Gamma", "Log", "ExposureContrast"])
        if t == "Matrix":
            ids = [self.matrix(dims=self.pick([(3, 3), (3, 4), (2, 2), (1, 1), (1, 2)]))]
        elif t == "LUT1D":
            ids = [self.halfdomain() if self.chance(0.2) else self.lut1d(maps=self.chance(0.3))]
        elif t == "LUT3D":
            ids = [self.lut3d(maps=self.chance(0.3))]
        else:
            ids = [self.of_type(t)]
        if self.chance(0.25):
            g = self.node("Group", {})
            for i in ids:
                self.add(op="add", id=g, node=i)
            ids = [g]
        l = self.list(ids)
        d = "16f"
        ch = self.pick([4, 4, 5, 6, 7])
        base = self.pixels(self.pick([1, 2, 3]), ch, d, extras=self.EXTRAS)
        self.process(l, base, ch, self.pick(["list", "f32", "tuple"]))
        other = [v if i % ch < 3 else self.pick(self.EXTRAS) for i, v in enumerate(base)]
        self.process(l, other, ch)

    def C04(self):
        a = self.depths()
        n = self.range_(a)
        l = self.list([n])
        d = a["inBitDepth"]["v"]
        vals = [self.value(d, 0.6) for _ in range(8)]
        node = self.ops[0]
        sets = {c["m"] for c in node["calls"]}
        # the ends of the intervals, and values just around them
        for c in node["calls"]:
            vals.append(c["n"])
            vals.append(dec(float(c["n"]) + 0.001 * SIZE[d]))
            vals.append(dec(float(c["n"]) - 0.001 * SIZE[d]))
        clamped = len(sets) == 4 and self.chance(0.5)
        vals += ["inf", "-inf"] if clamped or not sets else []
        vals += ["1000000", "-1000000"]
        self.process(l, vals, 0)
        if self.chance(0.3):
            self.process(l, vals[:6], 3)

    def C05(self):
        r = self.r.random()
        if r < 0.15:
            for fn in ("normalize", "scale"):
                for d in DEPTHS:
                    self.add(op="convert", fn=fn, depth=d, args=[self.value(d if fn == "normalize" else "16f", 0.5) for _ in range(6)])
            return
        t = self.pick(TYPES)
        ids = []
        base = None
        for _ in range(3):
            a = {"inBitDepth": S(self.pick(DEPTHS)), "outBitDepth": S(self.pick(DEPTHS))}
            if base is None:
                ids.append(self.of_type(t, a))
                base = self.ops[-1]
            else:
                op = json.loads(json.dumps(base))
                op["id"] = self.id("n")
                op["args"] = dict(op["args"])
                if t != "ColorCorrection":
                    op["args"].update(a)
                if self.chance(0.4) and t != "ColorCorrection":
                    # the same through the setters
                    op["args"].pop("inBitDepth")
                    op["args"].pop("outBitDepth")
                    op["calls"] = op["calls"] + [{"m": "setInBitDepth", "s": a["inBitDepth"]["v"]},
                                                 {"m": "setOutBitDepth", "s": a["outBitDepth"]["v"]}]
                self.ops.append(op)
                ids.append(op["id"])
        far = not self.wide and self.chance(0.4) and (
            t in ("Range", "Matrix", "ASC_CDL", "ColorCorrection", "LUT1D", "LUT3D", "Gamma") or
            t == "Log" and base["args"].get("style", S(""))["v"] in ("", "log10", "log2", "linToLog"))
        for i in ids:
            op = [o for o in self.ops if o.get("id") == i][0]
            d = op["args"].get("inBitDepth", S("16f"))["v"]
            for c in op["calls"]:
                if c["m"] == "setInBitDepth":
                    d = c["s"]
            l = self.list([i])
            self.process(l, self.pixels(2, 3, d), 3)
            self.process(l, [str(SIZE[d])] * 3, 0)
            if far:
                # beyond what a half or an integer of 16 bits can hold
                self.process(l, [dec(x * SIZE[d]) for x in self.r.sample([65504, 65519, 65520, 65535, 65536, 70000, 100000, 300000, -70000], 3)], 3)
        if self.chance(0.3):
            self.process(self.list(ids), self.pixels(1, 3, "16f"), 3)

    def C06(self):
        dims = self.pick([(3, 3), (3, 4), (4, 4), (4, 5), (3, 4), (4, 5), (2, 2), (2, 3)])
        n = self.matrix(dims=dims, scale=self.pick([1.0, 1.0, 20.0]))
        l = self.list([n])
        if self.chance(0.3):
            self.add(op="write", id=l, path="m.clf", sc=False, gz=False)
            self.add(op="read", id="R", path="m.clf", strict=True)
            l = "R"
        for ch in self.r.sample([2, 3, 4, 5, 6], 3):
            self.process(l, self.pixels(self.pick([1, 2]), ch, self.pick(["16f", "10i"]), 0.5), ch, self.pick(["list", "f32"]))
        self.process(l, ["1", "0", "0", "0", "1", "0", "0", "0", "1"], 3)

    LUT_EDGES = ["0", "1", "-0.5", "-0.0001", "1.0001", "2", "1000", "-1000", "nan", "inf", "-inf", "0.999999", "0.000001", "-0"]

    def endless(self):
        """a table with an infinite entry or two, asked for its finite entries and between them"""
        n = self.pick([3, 5, 9, 17])
        ch = self.pick([1, 3])
        a = {"inBitDepth": S(self.pick(["16f", "32f"])), "outBitDepth": S(self.pick(DEPTHS))}
        rows = [[dec(self.r.uniform(-0.2, 1.3)) for _ in range(ch)] for _ in range(n)]
        for i in self.r.sample(range(n), self.pick([1, 1, 2])):
            for c in range(ch):
                if ch == 1 or self.chance(0.6):
                    rows[i][c] = self.pick(["inf", "-inf", "nan"])
        odd = [any(v in ("inf", "-inf", "nan") for v in r) for r in rows]
        at = [i for i in range(n) if not odd[i]]
        if not at:
            return False
        l = self.list([self.node("LUT1D", a, [{"m": "setArray", "ch": ch, "vals": sum(rows, []), "enc": "string"}])])
        vals = []
        for i in at:
            vals.append(frac(i / (n - 1)))
            if i + 1 in at:
                vals.append(frac((i + 0.5) / (n - 1)))
        self.r.shuffle(vals)
        self.process(l, (vals * 6)[:6], 3)
        return True

    def C07(self):
        if self.chance(0.08) and self.endless():
            return
        n = self.pick([2, 3, 4, 5, 8, 17, 33, 65])
        ch = self.pick([1, 3])
        a = {"inBitDepth": S(self.pick(["16f", "32f", "16f", "10i", "8i"])), "outBitDepth": S(self.pick(DEPTHS))}
        l = self.list([self.lut1d(a, n, ch, scale=self.pick([1, 1, 100]))])
        d = a["inBitDepth"]["v"]
        k = SIZE[d]
        vals = []
        for _ in range(4):
            i = self.r.randrange(n)
            vals.append(dec(i / (n - 1) * k, 7))
            vals.append(dec((i + self.r.random()) / (n - 1) * k, 7))
        vals += [v if v in ("nan", "inf", "-inf", "-0") else dec(float(v) * k, 6) for v in self.r.sample(self.LUT_EDGES, 5)]
        vals += [self.value(d, 0.4) for _ in range(2)]
        self.r.shuffle(vals)
        vals = vals[:15]
        self.process(l, vals, 3)
        self.process(l, vals[:3], self.pick([1, 3]))

    def half_inputs(self, k):
        out = []
        for _ in range(k):
            r = self.r.random()
            if r < 0.45:
                c = self.r.choice([self.r.randrange(31744), 32768 + self.r.randrange(31744), self.r.randrange(1025),
                                   32768 + self.r.randrange(1025), 31743, 64511, 1, 32769, 1023, 1024, 15360, 48128])
                h = half(c)
                out.append("-0" if c == 32768 else frac(h))
            elif r < 0.85:
                c = self.r.choice([self.r.randrange(31743), self.r.randrange(1025), 15359, 15360, 1023, 0, 31742])
                x = half(c) + (half(c + 1) - half(c)) * self.r.choice([0.25, 0.5, 0.75, self.r.random(), self.r.random()])
                out.append(f32tok(x if self.chance(0.5) else -x))
            elif r < 0.95:
                out.append(self.pick(["nan", "inf", "-inf", "0", "-0", "70000", "-70000", "65504", "65519", "65520", "-65520", "1e30"]))
            else:
                out.append(self.value())
        return out

    def C08(self):
        a = {"inBitDepth": S(self.pick(["16f", "16f", "32f"])), "outBitDepth": S(self.pick(["16f", "10i"]))}
        if self.chance(0.5):
            a["interpolation"] = S(self.pick(["linear", ""]))
        n = self.halfdomain(a)
        l = self.list([n])
        if self.chance(0.1):
            self.add(op="write", id=l, path="h.clf", sc=False, gz=False)
            self.add(op="read", id="R", path="h.clf", strict=True)
            l = "R"
        for _ in range(2):
            self.process(l, self.half_inputs(30), 3)

    def C09(self):
        n = self.lut3d({"inBitDepth": S(self.pick(["16f", "16f", "10i"])), "outBitDepth": S(self.pick(["16f", "8i"]))},
                       interp=self.pick(["trilinear", "tetrahedral", "tetrahedral", None]))
        op = self.ops[-1]
        dims = op["calls"][0]["dims"]
        k = SIZE[op["args"]["inBitDepth"]["v"]]
        l = self.list([n])
        vals = []
        for _ in range(9):
            kind = self.r.random()
            fr = [self.r.random() for _ in range(3)]
            if kind < 0.25:
                fr = [0, 0, 0]
            elif kind < 0.4:
                x = self.r.random()
                fr = [x, x, self.r.random()]
                self.r.shuffle(fr)
            elif kind < 0.5:
                x = self.r.random()
                fr = [x, x, x]
            for c in range(3):
                i = self.r.randrange(dims[c])
                v = (i + fr[c]) / (dims[c] - 1)
                vals.append(dec(v * k, 6))
        for _ in range(6):
            vals.append(dec(self.r.uniform(-0.6, 1.7) * k, 5))
        self.process(l, vals, 3)

    def C10(self):
        if self.chance(0.15):
            n = self.cdl(type_="ColorCorrection")
            d = "16f"
        else:
            a = {"inBitDepth": S(self.pick(["16f", "32f", "10i"])), "outBitDepth": S(self.pick(["16f", "32f", "8i"]))}
            d = a["inBitDepth"]["v"]
            n = self.cdl(a)
        op = self.ops[-1]
        nought = self.chance(0.15) and op["args"].get("style", S("Fwd"))["v"] in ("Fwd", "FwdNoClamp", "v1.2_Fwd", "noClampFwd")
        if nought and op["calls"]:
            # parameters of zero count as any other
            c = self.pick(op["calls"])
            c["vals"][self.r.randrange(len(c["vals"]))] = "0"
        l = self.list([n])
        self.process(l, self.pixels(4, 3, d, 0.5), 3)
        ch = self.pick([1, 2, 4])
        self.process(l, self.pixels(2, ch, d), ch)
        op = self.ops[0]
        st = op["args"].get("style", S("Fwd"))["v"]
        pair = {"Fwd": "Rev", "FwdNoClamp": "RevNoClamp", "v1.2_Fwd": "v1.2_Rev", "noClampFwd": "noClampRev"}
        if op["type"] == "ASC_CDL" and st in pair and not nought and self.chance(0.6):
            # forward, then reverse
            back = json.loads(json.dumps(op))
            back["id"] = self.id("n")
            back["args"]["style"] = S(pair[st])
            back["args"]["inBitDepth"] = op["args"]["outBitDepth"]
            back["args"]["outBitDepth"] = op["args"]["inBitDepth"]
            self.ops.append(back)
            self.process(self.list([n, back["id"]]), self.pixels(3, 3, d, 0.1), 3)

    def part(self, t):
        """an element whose parameters are told in part, as files may"""
        el, a = self.el, {"inBitDepth": self.pick(["16f", "32f", "10i"]), "outBitDepth": self.pick(["16f", "32f", "12i"])}
        d = a["inBitDepth"]
        if t == "Gamma":
            a["style"] = self.pick(["basicFwd", "basicRev", "basicFwd", "moncurveFwd", "moncurveRev"])
        elif t == "Log":
            a["style"] = self.pick(["logToLin", "linToLog"])
        else:
            a["style"] = self.pick(["linear", "video", "log"])
        kids = []
        for ch in self.pick([[""], ["R"], ["G", "B"], ["B", "R"], ["", "G"], ["R", "G", "B"], ["B", "G", "R"], ["R", ""]] if t != "ExposureContrast" else [[""]]):
            if t == "Gamma":
                p = {"gamma": self.num(1.2, 2.5), "offset": self.num(0.02, 0.2)}
                if self.chance(0.6 if a["style"].startswith("basic") else 0.15):
                    del p["offset"]
            elif t == "Log":
                p = {"gamma": self.num(0.4, 0.9), "refWhite": self.num(600, 900), "refBlack": self.num(20, 200), "highlight": self.num(0.8, 1.5), "shadow": self.num(0, 0.1)}
                p = {k: v for k, v in p.items() if self.chance(0.5)}
            else:
                p = {"exposure": self.num(-1, 1), "contrast": self.num(0.7, 1.4), "pivot": self.num(0.1, 0.5)}
                p = {k: v for k, v in p.items() if self.chance(0.6)}
            if ch:
                p["channel"] = ch
            kids.append(el(t.replace("ExposureContrast", "EC") + "Params", p))
        self.add(op="put", path="part.clf", doc=el("ProcessList", {"id": "x", "compCLFversion": self.pick(["1.0", "2.0"])}, kids=[el(t, a, kids=kids)]), gz=False)
        self.add(op="read", id="P", path="part.clf", strict=False)
        px = [dec(self.r.uniform(0.05, 1) * SIZE[d], 5) for _ in range(9)]
        self.process("P", px, 3)
        if self.chance(0.3):
            self.add(op="write", id="P", path="again.clf", sc=False, gz=False)

    def C11(self):
        if self.chance(0.2):
            return self.part("Gamma")
        a = {"inBitDepth": S(self.pick(["16f", "32f", "10i"])), "outBitDepth": S(self.pick(["16f", "32f", "12i"]))}
        n = self.gamma(a)
        d = a["inBitDepth"]["v"]
        op = self.ops[-1]
        l = self.list([n])
        vals = self.pixels(4, 3, d, 0.5)
        st = op["args"].get("style", S("basicFwd"))["v"]
        if st.startswith("moncurve"):
            # around the break points
            for c in op["calls"]:
                g, o = float(c["vals"][0]), float(c["vals"][1])
                if g == 1:
                    continue
                p = o / (g - 1) if st.endswith("Fwd") else (g * o / ((g - 1) * (o + 1))) ** g
                for e in (0.97, 1.03, 0.6):
                    vals += [dec(p * e * SIZE[d], 6)] * 3
        self.process(l, vals, 3)
        ch = self.pick([3, 4])
        self.process(l, self.pixels(1, ch, d), 0)
        if self.chance(0.5):
            pair = {"basicFwd": "basicRev", "moncurveFwd": "moncurveRev", "basicRev": "basicFwd", "moncurveRev": "moncurveFwd"}
            back = json.loads(json.dumps(op))
            back["id"] = self.id("n")
            back["args"].update(style=S(pair[st]), inBitDepth=op["args"]["outBitDepth"], outBitDepth=op["args"]["inBitDepth"])
            self.ops.append(back)
            self.process(self.list([n, back["id"]]), self.pixels(3, 3, d, 0.2), 3)

    def C12(self):
        if self.chance(0.2):
            return self.part("Log")
        a = {"inBitDepth": S(self.pick(["16f", "32f", "10i"])), "outBitDepth": S(self.pick(["16f", "32f", "12i"]))}
        n = self.log(a)
        d = a["inBitDepth"]["v"]
        op = self.ops[-1]
        st = op["args"].get("style", S("log10"))["v"]
        l = self.list([n])
        vals = self.pixels(4, 3, d, 0.4) + ["0", "0", "0", "-1", "-0.001", str(SIZE[d])]
        self.process(l, vals, 3)
        self.process(l, self.pixels(1, self.pick([3, 5]), d), 0)
        if self.chance(0.5):
            pair = {"log10": "antiLog10", "log2": "antiLog2", "linToLog": "logToLin"}
            pair.update({v: k for k, v in pair.items()})
            back = json.loads(json.dumps(op))
            back["id"] = self.id("n")
            back["args"].update(style=S(pair[st]), inBitDepth=op["args"]["outBitDepth"], outBitDepth=op["args"]["inBitDepth"])
            self.ops.append(back)
            px = [dec(self.r.uniform(0.05, 1) * SIZE[d], 5) for _ in range(9)]
            self.process(self.list([n, back["id"]]), px, 3)

    def C13(self):
        if self.chance(0.2):
            return self.part("ExposureContrast")
        a = {"inBitDepth": S(self.pick(["16f", "32f", "10i"])), "outBitDepth": S(self.pick(["16f", "32f", "12i"]))}
        n = self.ec(a)
        d = a["inBitDepth"]["v"]
        l = self.list([n])
        op = self.ops[0]
        vals = self.pixels(5, 3, d, 0.4)
        for c in op["calls"]:
            vals += [dec(float(c["vals"][2]) * SIZE[d])] * 3
        self.process(l, vals, 3)
        self.process(l, self.pixels(1, self.pick([3, 4]), d), 0)

    BYPASS = [B(True), S("true"), S("1"), S("yes"), S("True"), B(False), S("False"), S("false"), S("0"), S(""), None, None, B(True), B(True)]

    def C14(self):
        n = self.pick([1, 2, 3, 3, 4, 5])
        feats = self.pick([15, 15, 15, 1, 3, 0, 2])
        ids = []
        one = {"inBitDepth": S("16f"), "outBitDepth": S("16f")} if self.chance(0.4) else None
        for _ in range(n):
            t = self.pick(["Range", "Matrix", "LUT1D", "ASC_CDL", "LUT3D"])
            i = self.of_type(t, one or self.depths()) if t != "ASC_CDL" else self.cdl(style=self.pick(CDL_STYLES[:4]))
            by = self.pick(self.BYPASS)
            if by is not None:
                self.add(op="call", id=i, calls=[{"m": "setAttribute", "k": "bypass", "v": by}])
            ids.append(i)
        if self.chance(0.4):
            g = self.node("Group", self.depths())
            for i in ids:
                self.add(op="add", id=g, node=i)
            around = [self.range_(style="noClamp", subset=0)] if self.chance(0.5) else []
            if self.chance(0.3):
                self.add(op="call", id=g, calls=[{"m": "setAttribute", "k": "bypass", "v": B(True)}])
            ids = around + [g] + ([self.range_(style="noClamp", subset=0)] if self.chance(0.5) else [])
        nodes = [o["id"] for o in self.ops if o["op"] == "node"]
        l = self.list(ids)
        if feats != 15:
            self.add(op="feats", v=feats)
        if self.chance(0.3):
            self.add(op="write", id=l, path="b.clf", sc=False, gz=False)
            self.add(op="read", id="R", path="b.clf", strict=False)
            self.process("R", self.pixels(2, 3, "10i", 0.5), 3)
        ch = self.pick([3, 4, 3])
        self.process(l, self.pixels(2, ch, self.pick(["16f", "10i"]), 0.5), ch, verbose=self.chance(0.3))
        if feats != 15:
            self.add(op="feats", v=15)
            self.process(l, self.pixels(1, ch, "16f", 0.5), ch)
        if self.chance(0.5):
            self.churn(l, nodes, ch, toggle=0.6)

    def subtree(self, depth):
        """ids of a few nodes, some of them groups"""
        out = []
        for _ in range(self.pick([0, 1, 1, 2, 2, 3])):
            if depth and self.chance(0.35):
                g = self.node("Group", self.names())
                for i in self.subtree(depth - 1):
                    self.add(op="add", id=g, node=i)
                out.append(g)
            else:
                out.append(self.tame())
        return out

    def ref_file(self, path, depth=1):
        """write a list to a file; it may refer to other files"""
        ids = [self.tame() for _ in range(self.pick([1, 1, 2]))]
        if depth and self.chance(0.5):
            sub = "sub%d.clf" % self.n
            self.ref_file(sub, depth - 1)
            r = self.node("Reference", path=sub)
            if self.chance(0.4):
                g = self.node("Group", {})
                self.add(op="add", id=g, node=r)
                r = g
            ids.insert(self.r.randrange(len(ids) + 1), r)
        l = self.list(ids)
        self.add(op="write", id=l, path=path, sc=False, gz=self.chance(0.3))

    def reference(self, missing=False):
        p = self.pick(["ref%d.clf", "ref%d.clf", "sub/ref%d.clf", "a/b/ref%d.clf"]) % self.n
        base = self.pick([".", "lib", "lib", "a/b", "sub", "sub/."]) if self.chance(0.4) else ""
        if not missing:
            self.ref_file(base + "/" + p if base else p)
        a = self.names()
        a["path"] = S(p)
        if base:
            a["basePath"] = S(base)
        if self.chance(0.2):
            a["alias"] = S("an alias")
        return self.node("Reference", a), (base + "/" + p if base else p)

    def C15(self):
        ids = self.subtree(2)
        if self.chance(0.6):
            r, path = self.reference(missing=self.chance(0.2))
            if self.chance(0.4):
                g = self.node("Group", {})
                self.add(op="add", id=g, node=r)
                r = g
            ids.insert(self.r.randrange(len(ids) + 1), r)
        else:
            path = None
            g = self.node("Group", self.names())
            for i in self.subtree(2):
                self.add(op="add", id=g, node=i)
            ids.append(g)
        l = self.list(ids)
        ch = self.tame_ch()
        px = self.pixels(self.pick([1, 2, 3]), ch)
        self.process(l, px, ch, verbose=self.chance(0.2))
        if path and self.chance(0.5):
            # what a Reference has read stays as it was
            if self.chance(0.5):
                other = self.list([self.tame()])
                self.add(op="write", id=other, path=path, sc=False, gz=False)
            self.process(l, px, ch)
        if self.chance(0.5):
            self.add(op="write", id=l, path="all.clf", sc=self.chance(0.3), gz=self.chance(0.3))
            self.add(op="read", id="R", path="all.clf", strict=self.chance(0.5))
            self.process("R", px, ch)
        if self.chance(0.3):
            nodes = [o["id"] for o in self.ops if o["op"] == "node"]
            tops = [o["node"] for o in self.ops if o["op"] == "add" and o["id"] == l]
            inside = set(tops)
            for o in self.ops:
                if o["op"] == "add" and o["id"] in inside:
                    inside.add(o["node"])
            nodes = [n for n in nodes if n in inside]
            if nodes:
                self.churn(l, nodes, ch)

    def decorate(self, nid, type_):
        """extra content every node may have"""
        calls = []
        for _ in range(self.pick([0, 0, 1, 2])):
            calls.append({"m": "addDescription", "s": self.pick(self.notes)})
        if self.chance(0.2):
            calls.append({"m": "setDynamicParam", "s": self.pick(["EXPOSURE", "CONTRAST"])})
        if self.chance(0.2):
            calls.append({"m": "setAttribute", "k": self.pick(["bypass", "custom", "note"]), "v": self.pick([B(True), B(False), S("some text"), S("1.0")])})
        if calls:
            self.add(op="call", id=nid, calls=calls)

    def rich_node(self, enc_p=0.2):
        t = self.pick(TYPES)
        a = dict(self.depths(0.4), **self.names())
        enc = self.pick(ENCS) if self.chance(enc_p) else "string"
        if t == "Matrix":
            n = self.matrix(a, self.pick([(3, 3), (3, 4), (4, 4), (4, 5)]), enc=enc)
        elif t == "LUT1D":
            raw = {"rawHalfs": B(self.chance(0.7))} if self.chance(0.3) else {}
            n = self.lut1d(a, maps=self.chance(0.4), enc=enc, extra=raw)
        elif t == "LUT3D":
            n = self.lut3d(a, self.pick([[2, 2, 2], [2, 3, 2], [3, 2, 4]]), maps=self.chance(0.4), enc=enc)
        elif t == "ColorCorrection":
            n = self.cdl(type_=t)
        else:
            n = self.of_type(t, a)
        self.decorate(n, t)
        return n

    def list_calls(self):
        c = []
        for m, p in (("setName", .7), ("setID", .7), ("setCompCLFversion", .5), ("setInverseOf", .3), ("setNamespace", .3)):
            if self.chance(p):
                c.append({"m": m, "s": "urn:NATAS:AMPAS:LUT:v2.0" if m == "setNamespace" else self.pick(TEXTS)})
        if self.chance(0.2):
            c.append({"m": "setAttribute", "k": "extra", "v": S(self.pick(TEXTS))})
        for m, p in (("addDescription", .5), ("addInputDescriptor", .4), ("addOutputDescriptor", .4), ("addDescription", .2)):
            if self.chance(p):
                c.append({"m": m, "s": self.pick(self.notes)})
        if self.chance(0.3):
            c.append({"m": "addInfo", "s": self.pick(TEXTS), "t": self.pick(TEXTS)})
        self.r.shuffle(c)
        return c

    def rich_list(self, groups=0.3, enc_p=0.2, refs=0.0):
        ids = []
        for _ in range(self.pick([0, 1, 2, 2, 3, 4])):
            if self.chance(groups):
                g = self.node("Group", dict(self.depths(0.2), **self.names()))
                self.decorate(g, "Group")
                for _ in range(self.pick([0, 1, 2])):
                    self.add(op="add", id=g, node=self.rich_node(enc_p))
                if self.chance(0.3):
                    g2 = self.node("Group", self.names())
                    self.add(op="add", id=g2, node=self.rich_node(enc_p))
                    self.add(op="add", id=g, node=g2)
                ids.append(g)
            elif self.chance(refs):
                ids.append(self.reference(missing=self.chance(0.3))[0])
            else:
                ids.append(self.rich_node(enc_p))
        return self.list(ids, calls=self.list_calls())

    def C16(self):
        self.notes = TEXTS + NOTES
        l = self.rich_list(refs=0.15)
        gz = self.chance(0.4)
        ch = self.pick([3, 4])
        px = self.pixels(2, ch)
        self.process(l, px, ch)
        cur = l
        for k in range(self.pick([1, 2, 2, 3])):
            path = self.pick(["a.clf", "b.xml", "c d.clf", "w%d.clf" % k])
            self.add(op="write", id=cur, path=path, sc=False, gz=gz)
            cur = "R%d" % k
            self.add(op="read", id=cur, path=path, strict=self.chance(0.5))
            gz = self.chance(0.4)
        for what in ("name", "id", "version", "namespace", "inBitDepth", "outBitDepth", "members", "len"):
            self.add(op="get", id=cur, what=what)
        self.process(cur, px, ch)

    def enc_values(self, enc, k):
        """values that the encoding can hold exactly, of every kind, and some it must round"""
        w = int(enc[-5:-3])
        out = []
        for _ in range(k):
            r = self.r.random()
            if w == 16 or r < 0.2:
                c = self.r.choice([self.r.randrange(65536), self.r.randrange(1025), 31744, 64512, 32768, 0, 1, 31743, 1024])
                h = half(c)
                out.append("nan" if h != h else "inf" if h == math.inf else "-inf" if h == -math.inf else
                           "-0" if c == 32768 else frac(h))
            elif w == 32 or r < 0.5:
                x = struct.unpack("<f", struct.pack("<I", self.r.choice([self.r.getrandbits(32), self.r.randrange(2**23), 2139095040, 2147483648, 1, 2139095039])))[0]
                out.append("nan" if x != x else "inf" if x == math.inf else "-inf" if x == -math.inf else
                           "-0" if x == 0 and math.copysign(1, x) < 0 else frac(x))
            else:
                x = struct.unpack("<d", struct.pack("<Q", self.r.choice([self.r.getrandbits(64), self.r.randrange(2**52), 4607182418800017408 + self.r.randrange(2**40)])))[0]
                out.append("nan" if x != x else frac(x) if abs(x) < math.inf else "inf" if x > 0 else "-inf")
        if self.chance(0.5):
            # values the width can not hold are rounded
            out[0] = frac(self.r.uniform(-2, 2))
            out[-1] = frac(1 / 3)
        return out

    def C17(self):
        r = self.r.random()
        if r < 0.2:
            for fn, w, tocode in (("halfToUInt16", 16, 1), ("halfToHex", 16, 1), ("uint16ToHalf", 16, 0), ("hexToHalf", 16, 0),
                                  ("float32ToUInt32", 32, 1), ("float32ToHex", 32, 1), ("uint32ToFloat32", 32, 0), ("hexToFloat32", 32, 0),
                                  ("doubleToUInt64", 64, 1), ("doubleToHex", 64, 1), ("uint64ToDouble", 64, 0), ("hexToDouble", 64, 0)):
                if tocode:
                    args = [v for v in self.enc_values("xxxxxxx%dbit" % w, 12)]
                else:
                    args = [str(self.r.getrandbits(w)) for _ in range(8)] + ["0", "1", str(2 ** (w - 1)), str(2 ** w - 1)]
                self.add(op="convert", fn=fn, depth="16f", args=args, upper=self.chance(0.4))
            return
        if r < 0.35:
            # codes in a document someone else has written
            enc = self.pick(ENCS)
            w, hexa = int(enc[-5:-3]), enc.startswith("hex")
            ok = lambda c: w == 16 or not ((c >> 23) & 255 == 255 if w == 32 else (c >> 52) & 2047 == 2047)
            codes = [c for c in (self.r.getrandbits(w) for _ in range(40)) if ok(c)]
            t = self.pick(["LUT1D", "LUT1D", "Matrix"])
            n, ch = self.pick([2, 3, 5]), self.pick([1, 3])
            arr = self.el("Array", {"dim": "3 3 3" if t == "Matrix" else "%d %d" % (n, ch), "floatEncoding": enc},
                          toks=codes[:9 if t == "Matrix" else n * ch], form="hex" if hexa else "dec")
            node = self.el(t, {"inBitDepth": "16f", "outBitDepth": "32f"}, kids=[arr])
            self.add(op="put", path="d.clf", doc=self.el("ProcessList", {"id": "x", "compCLFversion": "2.0"}, kids=[node]), gz=self.chance(0.2))
            self.add(op="read", id="R", path="d.clf", strict=True)
            self.add(op="write", id="R", path="o.clf", sc=False, gz=False)
            if t == "LUT1D":
                self.add(op="get", id="R.1", what="lutVals")
            return
        t = self.pick(["LUT1D", "LUT1D", "LUT3D", "Matrix"])
        enc = self.pick(ENCS + ["string"])
        raw = t == "LUT1D" and self.chance(0.3)
        e2 = "integer16bit" if raw else enc
        if e2 == "string":
            vals = lambda k: [self.pick([dec(self.r.uniform(-3, 3), 12), frac(1 / 3), "0.0000000004", "0.0000000006", "1", "65504", dec(self.r.uniform(0, 1e5), 10)]) for _ in range(k)]
        else:
            vals = lambda k: self.enc_values(e2, k)
        if t == "LUT1D":
            ch = self.pick([1, 3])
            a = {"rawHalfs": B(True)} if raw else {}
            a["outBitDepth"] = S(self.depth())
            n = self.node("LUT1D", a, [{"m": "setArray", "ch": ch, "vals": vals(ch * self.pick([2, 4, 7])), "enc": enc}])
            if self.chance(0.06):
                n = self.halfdomain(raw=raw, enc=enc)
        elif t == "LUT3D":
            d = self.pick([[2, 2, 2], [2, 3, 2]])
            n = self.node("LUT3D", {"outBitDepth": S(self.depth())}, [{"m": "setArray", "dims": d, "vals": vals(d[0] * d[1] * d[2] * 3), "enc": enc}])
        else:
            r_, c_ = self.pick([(3, 3), (3, 4), (4, 5)])
            n = self.node("Matrix", {"outBitDepth": S(self.depth())}, [{"m": "setMatrix", "dims": [r_, c_, 3], "vals": vals(r_ * c_), "enc": enc}])
        l = self.list([n])
        self.add(op="write", id=l, path="e.clf", sc=False, gz=self.chance(0.2))
        self.add(op="read", id="R", path="e.clf", strict=True)
        if t != "Matrix" and not any("gen" in c for o in self.ops for c in o.get("calls", [])):
            self.add(op="get", id="R.1", what="lutVals")
            self.add(op="get", id="R.1", what="lutDims")
        self.add(op="write", id="R", path="f.clf", sc=False, gz=False)

    def doc_node(self, depth=1, types=None):
        """a node element as it may stand in a file"""
        el = self.el
        t = self.pick(types or (TYPES + ["Group", "Reference"] if depth else TYPES))
        a = {"inBitDepth": self.pick(DEPTHS[4:]), "outBitDepth": self.pick(DEPTHS[4:])}
        if self.chance(0.6):
            a["name"] = self.pick(TEXTS)
        if self.chance(0.4):
            a["id"] = "n%d" % self.r.randrange(99)
        kids = []
        if self.chance(0.3):
            kids.append(el("Description", text=self.pick(self.notes)))
        if t == "Range":
            for m in ("minInValue", "maxInValue", "minOutValue", "maxOutValue"):
                kids.append(el(m, toks=[self.num(-0.2, 0.4) if m.startswith("min") else self.num(0.6, 1.3)]))
        elif t == "Matrix":
            kids.append(el("Array", {"dim": "3 3 3"}, toks=self.nums(9, -1, 1)))
        elif t == "LUT1D":
            n, ch = self.pick([2, 3, 4]), self.pick([1, 3])
            kids.append(el("Array", {"dim": "%d %d" % (n, ch)}, toks=self.nums(n * ch, 0, 1)))
        elif t == "LUT3D":
            kids.append(el("Array", {"dim": "2 2 2 3"}, toks=self.nums(24, 0, 1)))
        elif t in ("ASC_CDL", "ColorCorrection"):
            if t == "ASC_CDL":
                a["style"] = self.pick(CDL_STYLES[:4])
            sop = self.pick(["SOPNode", "SopNode"])
            kids.append(el(sop, kids=[el("Slope", toks=self.nums(3, .8, 1.2)), el("Offset", toks=self.nums(3, -.1, .1)), el("Power", toks=self.nums(3, .8, 1.2))]))
            kids.append(el(self.pick(["SatNode", "SATNode"]), kids=[el("Saturation", toks=[self.num(.7, 1.2)])]))
            if t == "ColorCorrection":
                a = {"id": "cc1"}
        elif t == "Gamma":
            a["style"] = self.pick(["basicFwd", "basicRev"])
            kids.append(el("GammaParams", {"gamma": self.num(1.2, 2.5)}))
        elif t == "Log":
            a["style"] = self.pick(["logToLin", "linToLog"])
            if self.chance(0.5):
                kids.append(el("LogParams", {"gamma": "0.6", "channel": self.pick("RGB")}))
        elif t == "ExposureContrast":
            a["style"] = self.pick(["linear", "video", "log"])
            kids.append(el("ECParams", {"exposure": self.num(-1, 1), "contrast": self.num(.8, 1.2), "pivot": "0.18"}))
        elif t == "Group":
            for _ in range(self.pick([1, 2])):
                kids.append(self.doc_node(depth - 1))
        elif t == "Reference":
            a["path"] = "missing.clf"
        return el(t, a, kids=kids)

    def doc(self, depth=1, types=None):
        a = {"id": "doc", "compCLFversion": "1.0"}
        if self.chance(0.5):
            a["name"] = self.pick(TEXTS)
        kids = []
        for tag in ("Description", "InputDescriptor", "OutputDescriptor"):
            if self.chance(0.4):
                kids.append(self.el(tag, text=self.pick(TEXTS)))
        if self.chance(0.3):
            kids.append(self.el("Info", kids=[self.el("AppRelease", text="app 1"), self.el("Copyright", text="(c)"), self.el("Release", text="r1")]))
        for _ in range(self.pick([1, 2, 3])):
            kids.append(self.doc_node(depth, types))
        return self.el("ProcessList", a, kids=kids)

    @staticmethod
    def walk(d):
        yield d
        for k in d["kids"]:
            for x in Gen.walk(k):
                yield x

    UNKNOWN = ["Unknown", "Ranges", "Foo-Bar", "LUT2D", "Grading", "matrix", "Node_X", "RangeX", "Process"]

    def C19(self):
        self.notes = TEXTS + NOTES
        d = self.doc(depth=2)
        places = [e for e in self.walk(d) if e["tag"] in ("ProcessList", "Group")]
        put = self.pick([0, 1, 1, 1, 2])
        for _ in range(put):
            e = self.pick(places)
            u = self.el(self.pick(self.UNKNOWN), {"a": "b"}, kids=[self.el("Description", text="inside"), self.doc_node(0)] if self.chance(0.4) else [])
            e["kids"].insert(self.r.randrange(len(e["kids"]) + 1), u)
        r = self.r.random()
        if r < 0.25:
            d["attrs"]["xmlns"] = "urn:NATAS:AMPAS:LUT:v2.0"
        elif r < 0.45:
            d["attrs"]["xmlns:clf"] = "urn:some:space"
            for e in self.walk(d):
                e["tag"] = "clf:" + e["tag"]
        if self.chance(0.3):
            for e in self.walk(d):
                base = e["tag"].split(":")[-1]
                if base == "LUT1D":
                    e["tag"] = e["tag"].replace("LUT1D", self.pick(["LUT_1D", "LUT-1D", "LUT1-D"]))
                elif base == "ASC_CDL":
                    e["tag"] = e["tag"].replace("ASC_CDL", self.pick(["ASC-CDL", "ASCCDL"]))
                elif base == "GammaParams":
                    e["tag"] = e["tag"].replace("GammaParams", "Gamma_Params")
        self.add(op="put", path="d.clf", doc=d, gz=self.chance(0.2))
        if self.chance(0.15):
            self.add(op="junk", path="j.clf")
            self.add(op="read", id="J", path="j.clf", strict=False)
            self.add(op="read", id="J", path="nofile.clf", strict=False)
        self.add(op="read", id="S", path="d.clf", strict=True)
        self.add(op="read", id="R", path="d.clf", strict=False)
        self.add(op="get", id="R", what="members")
        self.add(op="get", id="R", what="namespace")
        self.add(op="write", id="R", path="o.clf", sc=False, gz=False)
        self.process("R", self.pixels(1, 3), 3)

    FEATS = [0, 1, 2, 3, 15]

    def C18(self):
        r = self.r.random()
        if r < 0.45:
            # documents with one gated thing
            kind = self.pick(["ExposureContrast", "Gamma", "Log", "Reference", "Group", "dyn", "none", "gz"])
            base = ["Range", "Matrix", "LUT1D", "LUT3D", "ASC_CDL", "ColorCorrection"]
            d = self.doc(depth=0, types=base)
            inside = self.chance(0.4)
            if kind == "dyn":
                e = self.doc_node(0, base)
                e["kids"].append(self.el("DynamicParameter", {"param": "EXPOSURE"}))
            elif kind in ("none", "gz"):
                e = self.doc_node(0, base)
            elif kind == "Group":
                e = self.el("Group", {"name": "g"}, kids=[self.doc_node(0, base)])
            else:
                e = self.doc_node(1, [kind])
            if inside:
                e = self.el("Group", {"name": "outer"}, kids=[e])
                if kind != "Group" and self.chance(0.5):
                    # with the groups on, only the thing inside is gated
                    pass
            d["kids"].insert(self.r.randrange(len(d["kids"]) + 1), e)
            self.add(op="put", path="d.clf", doc=d, gz=kind == "gz")
            feats = list(self.FEATS)
            self.r.shuffle(feats)
            for f in feats[:4] + [15]:
                if inside and kind not in ("none", "gz", "Group") and f == 0 or (inside and kind == "dyn" and f == 0):
                    continue
                self.add(op="feats", v=f)
                self.add(op="read", id="S%d" % f, path="d.clf", strict=True)
                self.add(op="read", id="R%d" % f, path="d.clf", strict=False)
            self.add(op="write", id="R15", path="o.clf", sc=False, gz=False)
            self.process("R15", self.pixels(1, 3), 3)
            return
        if r < 0.65:
            st = self.pick(CDL_STYLES)
            n = self.cdl(style=st)
            if self.chance(0.3):
                g = self.node("Group", {})
                self.add(op="add", id=g, node=n)
                n = g
            l = self.list([self.range_(), n])
            for f in self.r.sample(self.FEATS, 4) + [15]:
                self.add(op="feats", v=f)
                self.process(l, self.pixels(1, self.pick([3, 3, 4, 2]), "16f"), 0)
            return
        enc = self.pick(ENCS + ["string", "string"])
        t = self.pick(["LUT1D", "LUT3D", "Matrix"])
        n = {"LUT1D": lambda: self.lut1d(enc=enc), "LUT3D": lambda: self.lut3d(dims=[2, 2, 2], enc=enc), "Matrix": lambda: self.matrix(enc=enc, dims=(3, 3))}[t]()
        if self.chance(0.3):
            g = self.node("Group", {})
            self.add(op="add", id=g, node=n)
            n = g
        l = self.list([n])
        if self.chance(0.5):
            self.add(op="junk", path="p.clf")
        for f in self.r.sample(self.FEATS, 4) + [15]:
            self.add(op="feats", v=f)
            self.add(op="write", id=l, path="p.clf", sc=self.chance(0.3), gz=self.chance(0.4))
            if self.chance(0.5):
                self.add(op="read", id="Q%d" % f, path="p.clf", strict=True)

    def C20(self):
        self.notes = TEXTS + NOTES
        ids = []
        for _ in range(self.pick([1, 2, 3])):
            if self.chance(0.5):
                n = self.reference(missing=self.chance(0.25))[0]
                if self.chance(0.2):
                    self.add(op="call", id=n, calls=[{"m": "setAttribute", "k": "bypass", "v": B(True)}])
            else:
                n = self.rich_node(0.3)
            if self.chance(0.3):
                g = self.node("Group", self.names())
                self.add(op="add", id=g, node=n)
                n = g
            ids.append(n)
        l = self.list(ids, calls=self.list_calls())
        px = self.pixels(1, 3)
        self.process(l, px, 3)
        for _ in range(self.pick([2, 3, 4])):
            if self.chance(0.3):
                self.add(op="feats", v=self.pick([0, 1, 2, 15]))
            self.add(op="write", id=l, path=self.pick(["p.clf", "q.clf"]), sc=self.chance(0.5), gz=self.chance(0.3))
            if self.chance(0.3):
                self.process(l, px, 3)
        self.add(op="feats", v=15)
        self.add(op="write", id=l, path="last.clf", sc=True, gz=False)
        self.add(op="read", id="R", path="last.clf", strict=False)
        self.process("R", px, 3)
        self.add(op="write", id=l, path="last2.clf", sc=False, gz=False)
        self.process(l, px, 3)

    def C28(self):
        pool = self.pick([["alpha", "beta", "gamma", "alpha"], ["alpha", "alpha2", "Alpha", "al"], ["alpha", "beta", "gamma", "alpha"]])
        dyn = self.pick([["EXPOSURE", "GAMMA", "OTHER"], ["EXPOSURE", "EXPOSURE_B", "EXP"], ["exposure", "EXPOSURE", "POSURE"]])
        self.known = (pool, dyn)
        nodes, lists = [], []
        ve = {"minInValue": "0", "maxInValue": "1"}
        for _ in range(self.pick([2, 3])):
            t = self.pick(TYPES + ["Group"])
            a = dict(self.depths(), name=S(self.pick(pool)))
            nodes.append((self.node("Group", a) if t == "Group" else self.of_type(t, a), t))
        for _ in range(2):
            lists.append(self.list())
        for _ in range(self.pick([10, 16])):
            r = self.r.random()
            n, t = self.pick(nodes)
            l = self.pick(lists)
            if r < 0.2:
                self.add(op="add", id=l, node=n)
            elif r < 0.3:
                self.add(op="call", id=l, calls=[self.pick([{"m": "setName", "s": self.pick(TEXTS)}, {"m": "setID", "s": "i%d" % self.r.randrange(9)},
                                                           {"m": "setNamespace", "s": "urn:x"}, {"m": "setCompCLFversion", "s": "2.0"},
                                                           {"m": "setInverseOf", "s": "inv"}, {"m": "addValueElement", "k": "key", "n": self.num(0, 9)},
                                                           {"m": "setAttribute", "k": "a%d" % self.r.randrange(2), "v": S(self.pick(TEXTS))}])])
            elif r < 0.45:
                self.add(op="call", id=l, calls=[{"m": self.pick(["setInBitDepth", "setOutBitDepth"]), "s": self.pick(DEPTHS)}])
            elif r < 0.7:
                c = self.pick([{"m": "setInBitDepth", "s": self.pick(DEPTHS)}, {"m": "setOutBitDepth", "s": self.pick(DEPTHS)},
                               {"m": "setAttribute", "k": "name", "v": S(self.pick(pool))}, {"m": "setDynamicParam", "s": self.pick(dyn[:2])},
                               {"m": "setAttribute", "k": self.pick(["u", "u", "u2"]), "v": self.pick([S("text"), B(True), {"t": "n", "v": "3"}])},
                               {"m": "addValueElement", "k": self.pick(["k1", "k2"]), "n": self.num(-5, 5)}])
                if t == "Range" and self.chance(0.5):
                    c = {"m": self.pick(["setMinInValue", "setMaxInValue", "setMinOutValue", "setMaxOutValue"]), "n": self.num(0.1, 3)}
                    if c["m"] == "setMinInValue":
                        c["n"] = self.num(-3, -0.5)
                elif t == "Range" and self.chance(0.3):
                    c = self.pick([{"m": "setStyle", "s": "noClamp"}, {"m": "setDefaultRange", "b": True}, {"m": "setDefaultRange", "b": False}])
                elif t == "LUT1D" and self.chance(0.4):
                    ch = self.pick([1, 3])
                    c = {"m": "setArray", "ch": ch, "vals": self.nums(ch * self.pick([2, 3]), 0, 1), "enc": "string"}
                elif t == "LUT3D" and self.chance(0.4):
                    c = {"m": "setArray", "dims": [2, 2, 2], "vals": self.nums(24, 0, 1), "enc": "string"}
                elif t == "Matrix" and self.chance(0.4):
                    c = {"m": "setMatrix", "dims": [3, 3, 3], "vals": self.nums(9, 0, 1), "enc": "string"}
                elif t in ("ASC_CDL", "ColorCorrection") and self.chance(0.5):
                    c = self.pick(self.cdl_calls(15))
                elif t == "Gamma" and self.chance(0.4):
                    c = {"m": "setGamma", "vals": [self.num(1.2, 2.5), "0.1"], "ch": self.pick(["", "R"])}
                elif t == "ExposureContrast" and self.chance(0.4):
                    c = {"m": "setExposureContrastPivot", "vals": ["0.5", "1.1", "0.2"]}
                self.add(op="call", id=n, calls=[c])
            elif r < 0.75 and self.chance(0.5):
                self.process(l, self.nums(3, -0.2, 1.3), 3)
            elif r < 0.75 and t == "Group":
                m, mt = self.pick(nodes)
                if mt != "Group":
                    self.add(op="add", id=n, node=m)
            else:
                self.gets(n, t, l)
        for n, t in nodes:
            self.gets(n, t, lists[0])
        for l in lists:
            for w in ("members", "len", "inBitDepth", "outBitDepth"):
                self.add(op="get", id=l, what=w)
            self.process(l, self.nums(3, -0.2, 1.3), 3)
            self.add(op="get", id=l, what="find", k=self.pick(pool + ["nobody"]))
            self.add(op="get", id=l, what="holds", node=self.pick(nodes)[0])
            self.places(l)

    def places(self, l):
        """indexing as of any sequence, from both ends"""
        if self.chance(0.5):
            self.add(op="get", id=l, what="at", i=self.pick([0, 1, 2, 5, -1, -1, -2, -3, -9, 70]))
        elif self.chance(0.6):
            self.add(op="get", id=l, what="slice", a=self.pick([0, 0, 1, 2, -1, -2]), b=self.pick([1, 2, 3, 99, -1, -1]))
        else:
            self.add(op="get", id=l, what="pairs")

    known = (["alpha", "beta", "gamma"], ["EXPOSURE", "GAMMA", "OTHER"])

    def gets(self, n, t, l):
        what = self.pick(["attr", "name", "inBitDepth", "outBitDepth", "type", "ve", "dyn", "lut", "list", "list", "find", "place"])
        if what == "attr":
            self.add(op="get", id=n, what="attr", k=self.pick(["name", "u", "U", "u2", "style", "interpolation", "nothing", "inBitDepth"]))
        elif what == "ve":
            self.add(op="get", id=n, what="ve", k=self.pick(["minInValue", "maxOutValue", "k1", "k2"]))
        elif what == "dyn":
            self.add(op="get", id=n, what="dyn", k=self.pick(self.known[1]))
        elif what == "lut":
            if t in ("LUT1D", "LUT3D"):
                self.add(op="get", id=n, what=self.pick(["lutDims", "lutVals"]))
        elif what == "list":
            w = self.pick(["name", "id", "namespace", "inverseOf", "version", "inBitDepth", "outBitDepth", "len", "members", "attr", "ve"])
            self.add(op="get", id=l, what=w, **({"k": "a0"} if w == "attr" else {"k": "key"} if w == "ve" else {}))
        elif what == "place":
            self.places(l)
        elif what == "find":
            self.add(op="get", id=l, what="find", k=self.pick(self.known[0] + ["nobody"]))
        else:
            self.add(op="get", id=n, what=what)

    def C29(self):
        k = self.pick(["1d", "1d", "3d", "3d", "half"])
        nid = self.id("n")
        base = dict(op="sampled", id=nid, kind=k, nid="id1", name="sampled", din="16f", dout="16f")
        if self.chance(0.3):
            base["din"], base["dout"] = self.depth(), self.depth()
        if k == "1d":
            n, ch = self.pick([2, 3, 5, 9, 16]), self.pick([1, 3])
            self.add(f=self.nums(3, -1, 1), n=n, ch=ch, **base)
            d = SIZE[base["din"]]
            vals = [dec(i / (n - 1) * d, 7) for i in range(n)]
            while len(vals) % 3:
                vals.append("0")
        elif k == "3d":
            dims = self.pick([[2, 2, 2], [3, 3, 3], [2, 3, 4], [4, 2, 3], [3, 4, 2], [2, 2, 5]])
            self.add(f=[self.nums(5, -1, 1) for _ in range(3)], dims=dims, **base)
            d = SIZE[base["din"]]
            vals = []
            for _ in range(5):
                vals += [dec(self.r.randrange(n) / (n - 1) * d, 7) for n in dims]
        else:
            self.add(f=[self.pick(["0", "0.5"]), self.pick(["1", "2", "-0.5"])], ch=self.pick([1, 3]), raw=self.chance(0.5), **base)
            base["din"] = "16f"
            vals = [v for v in self.half_inputs(18)]
        l = self.list([nid])
        if k != "half":
            self.add(op="get", id=nid, what="lutDims")
        self.process(l, vals, 3)
        self.add(op="write", id=l, path="s.clf", sc=False, gz=False)
        if k != "half":
            self.add(op="read", id="R", path="s.clf", strict=True)
            self.process("R", vals, 3)

    def C30(self):
        three = self.chance(0.4)
        a = {"inBitDepth": S(self.pick(["16f", "10i", "8i"])), "outBitDepth": S(self.pick(["16f", "10i"]))}
        d = a["inBitDepth"]["v"]
        n = self.lut3d(a, maps=True, interp=self.pick(["trilinear", "tetrahedral"])) if three else self.lut1d(a, maps=True, interp="linear")
        mp = [c for c in self.ops[0]["calls"] if c["m"] == "setIndexMaps"][0]["maps"]
        vals = []
        for _ in range(15):
            m = self.pick(mp)
            i = self.r.randrange(len(m["keys"]) - 1)
            k0, k1 = float(m["keys"][i]), float(m["keys"][i + 1])
            vals.append(dec(self.pick([k0, k1, k0 + (k1 - k0) * self.r.random(), k0 - 0.3 * SIZE[d], k1 + 0.2 * SIZE[d]]), 5))
        if not three:
            vals[3:6] = [self.pick(["nan", "inf", "-inf"]) for _ in range(3)]
        l = self.list([n])
        self.process(l, vals, 3)
        if not three and self.chance(0.6):
            st = self.pick([1, 2, 2, 4, 5])
            self.process(l, vals[:len(vals) // st * st], st)
        if self.chance(0.4):
            for i in range(1, len(mp) + 1):
                for w in ("mapDim", "mapKeys", "mapVals"):
                    self.add(op="get", id=n, what=w, i=i)
        if self.chance(0.4):
            self.add(op="write", id=l, path="x.clf", sc=False, gz=False)
            self.add(op="read", id="R", path="x.clf", strict=True)
            self.process("R", vals, 3)

    # ------------------------------------------------------------ LUT files
    def climbing(self, n, lo, hi, places=4, flat=0.0):
        """n non-decreasing numbers from lo to hi"""
        steps = [0.0 if self.chance(flat) else self.r.uniform(0.1, 1) for _ in range(n - 1)]
        if not any(steps):
            steps[self.r.randrange(n - 1)] = 1.0
        t, out = 0.0, []
        for s in [0.0] + steps:
            t += s
            out.append(dec(lo + (hi - lo) * t / sum(steps), places))
        return out

    def span(self, unit=0.4):
        if self.chance(unit):
            return ["0", "1"]
        lo = self.pick([0, 0, -0.5, -0.125, 0.1, -2])
        return [dec(lo), dec(lo + self.pick([0.5, 1, 2, 3.75, 8]))]

    def lut_file(self, e, one=None, comps=None, rising=False, flat=0.0, path=None, sizes=None, cubes=None):
        op = {"op": "putlut", "path": path or self.id("f") + "." + e, "from": ["0", "1"], "comps": 3, "pre": [],
              "noise": self.r.randrange(1000)}
        low = e.lower()
        one = (low == "spi1d" or (low == "csp" and self.chance(0.5))) if one is None else one
        op["fmt"] = "1d" if one else "3d"
        if one:
            n = self.pick(sizes or [2, 3, 4, 5, 8, 13])
            op["dims"] = [n]
            if low == "spi1d":
                op["comps"] = comps or self.pick([1, 3, 3])
                op["from"] = self.span()
            k = self.pick([0.5, 1, 1, 4])
            cols = [self.climbing(n, self.r.uniform(-0.3, 0.3) * k, self.r.uniform(0.5, 1.5) * k, flat=flat)
                    if rising or self.chance(0.5) else self.nums(n, -0.5, 2) for _ in range(op["comps"])]
            op["vals"] = [cols[c][i] for i in range(n) for c in range(op["comps"])]
        else:
            op["dims"] = self.pick(cubes or [[2, 2, 2], [3, 3, 3], [2, 3, 4], [4, 2, 3], [3, 4, 2], [2, 2, 5], [4, 4, 4]])
            a, b, c = op["dims"]
            op["vals"] = self.nums(a * b * c * 3, -0.5, 2)
        if low == "csp":
            what = self.pick(["range", "plain", "shared", "each", "two"])
            if what == "range":
                op["from"] = self.span(0)
            elif what != "plain":
                def prelut():
                    n = 2 if what == "two" else self.pick([2, 3, 4, 6])
                    lo = self.pick([0, 0, -0.25, 0.05])
                    return {"keys": self.climbing(n, lo, lo + self.pick([0.8, 1, 2]), 3),
                            "vals": self.climbing(n, self.pick([0, 0, 0.1]), self.pick([1, 1, 0.9]), 3)}
                one_ = prelut()
                op["pre"] = [one_] * 3 if what == "shared" else [prelut() for _ in range(3)]
        self.ops.append(op)
        return op

    def lut_inputs(self, op, n=5, ch=3):
        if op["pre"]:
            keys = [float(k) for p in op["pre"] for k in p["keys"]]
        else:
            keys = [float(k) for k in op["from"]]
        lo, hi = min(keys), max(keys)
        vals = []
        for _ in range(n):
            for c in range(ch):
                d = op["dims"][min(c, len(op["dims"]) - 1)]
                k = self.r.random()
                t = self.r.randrange(d) / (d - 1) if k < 0.35 else self.r.random() if k < 0.8 else self.r.uniform(-0.5, 1.5)
                x = lo + t * (hi - lo)
                if op["pre"] and self.chance(0.2):
                    x = self.pick(keys)
                vals.append(dec(x, 5))
        return vals

    def C21(self):
        e = self.pick(["spi1d", "spi1d", "spi3d", "csp", "csp", "csp"])
        if self.chance(0.1):
            e = e.upper()
        op = self.lut_file(e)
        via = self.pick(["read", "read", "nodes", "clf"])
        ip = "linear" if op["fmt"] == "1d" else self.pick(["linear", "trilinear", "tetrahedral"])
        if e.lower() == "csp":
            ip = "linear"
        if via == "clf":
            self.add(op="lut2clf", path=op["path"], clf="out.clf", inverse="", interp="linear")
            self.add(op="read", id="L", path="out.clf", strict=True)
        else:
            self.add(op="lutread", id="L", path=op["path"], inverse="", interp=ip, nodes=via == "nodes")
        ch = 4 if self.chance(0.2) else 3
        self.process("L", self.lut_inputs(op, 5, ch), ch)

    def C23(self):
        comps = self.pick([1, 3])
        op = self.lut_file("spi1d", comps=comps, rising=True, flat=self.pick([0, 0, 0.2, 0.5]))
        n = op["dims"][0]
        outs = op["vals"]
        method = self.pick(["index", "index", "resample", "resample", "resample", "half"]) if not self.chance(0.1) else "half"
        if method == "half" and not self.chance(0.25):
            method = "index"
        cols = [[float(outs[i * comps + (c if comps == 3 else 0)]) for i in range(n)] for c in range(3)]
        if method == "resample" and max(c[-1] for c in cols) <= min(c[0] for c in cols):
            method = "index"
        if self.chance(0.25):
            self.add(op="lut2clf", path=op["path"], clf="inv.clf", inverse=method, interp="linear")
            self.add(op="read", id="L", path="inv.clf", strict=True)
        else:
            self.add(op="lutread", id="L", path=op["path"], inverse=method, interp="linear", nodes=self.chance(0.3))
        vals = []
        for _ in range(6):
            for c in range(3):
                k = self.r.random()
                i = self.r.randrange(n - 1)
                a, b = cols[c][i], cols[c][i + 1]
                x = a if k < 0.3 else a + (b - a) * self.r.random() if k < 0.75 else cols[c][-1] if k < 0.8 else \
                    self.r.uniform(cols[c][0] - 1, cols[c][-1] + 1)
                vals.append(dec(x, 5))
        self.process("L", vals, 3)
        if self.chance(0.4):
            self.add(op="lutread", id="F", path=op["path"], inverse="", interp="linear")
            self.process("F", self.lut_inputs(op, 3), 3)

    def bake_list(self):
        """a list whose results stay near its inputs"""
        nodes = []
        for _ in range(self.pick([1, 1, 2, 2, 3])):
            a = {"inBitDepth": S("16f"), "outBitDepth": S("16f")}
            t = self.pick(["Matrix", "LUT1D", "LUT3D", "Range", "ASC_CDL", "Gamma", "Group"])
            if t == "Matrix" and self.chance(0.12):
                # results far out
                z = self.pick(["1000", "250000", "20000000", "-3000000"])
                m = self.pick([[z, "0", "0", "0", "1", "0", "0", "0", "1"], [z, "0", "0", "0", z, "0", "0", "0", z], ["1", "0", "0", "0", "1", z, "0.5", "0", "1"]])
                nodes.append(self.node("Matrix", a, [{"m": "setMatrix", "dims": [3, 3, 3], "vals": m, "enc": "string"}]))
            elif t == "Matrix":
                nodes.append(self.matrix(a))
            elif t == "LUT1D":
                nodes.append(self.lut1d(a, interp="linear", maps=False))
            elif t == "LUT3D":
                nodes.append(self.lut3d(a, interp="trilinear", maps=False))
            elif t == "Range":
                nodes.append(self.range_(a))
            elif t == "ASC_CDL":
                nodes.append(self.cdl(a))
            elif t == "Gamma":
                nodes.append(self.node("Gamma", a, [{"m": "setGamma", "vals": [self.pick(["2", "0.5", "1.25"]), "0"], "ch": ""}], style="basicFwd"))
            else:
                m = self.matrix(a)
                g = self.node("Group", a)
                self.add(op="add", id=g, node=m)
                nodes.append(g)
        return self.list(nodes, calls=[{"m": "setAttribute", "k": "id", "v": S("baked")}])

    def shaper(self):
        t = self.pick(["none", "linear", "linear", "log2", "log2"])
        if t == "none":
            return [t, "0", "1"]
        if t == "linear":
            return [t] + self.span(0.3)
        return [t, self.pick(["-4", "-6", "-3.5", "-8"]), self.pick(["2", "0", "1.5", "4"])]

    def lutwrite(self, lid, path, kind, via="registry", clf=""):
        s = self.span(0.4)
        self.add(op="lutwrite", id=lid, clf=clf, path=path, kind=kind, via=via,
                 n1=self.pick([2, 3, 5, 9, 16]), n3=self.pick([2, 3, 4]), na=self.pick([2, 3, 5, 9]), nb=self.pick([2, 3, 6]),
                 min=s[0], max=s[1], shin=self.shaper(), shout=self.shaper())
        return self.ops[-1]

    def C22(self):
        l = self.bake_list()
        via = self.pick(["registry", "registry", "tool", "main"])
        clf, lid = "", l
        if via != "registry":
            clf, lid = "in.clf", ""
            self.add(op="write", id=l, path=clf, sc=False, gz=False)
        e, kind = self.pick([("spi1d", "1D"), ("spi3d", "3D"), ("csp", "1D"), ("csp", "3D"), ("csp", "1D3D1D"), ("csp", "1D3D1D"),
                             ("ctl", "1D"), ("ctl", "3D"), ("clf", "1D3D1D"), ("clf", "1D3D1D")])
        op = self.lutwrite(lid, "out." + e, kind, via, clf)
        if e in ("ctl",) or self.chance(0.2):
            return
        if e == "clf":
            self.add(op="read", id="B", path="out.clf", strict=True)
        else:
            self.add(op="lutread", id="B", path="out." + e, inverse="", interp="linear")
        lo, hi = float(op["min"]), float(op["max"])
        if kind == "1D3D1D":
            lo, hi = float(op["shin"][1]), float(op["shin"][2])
            if op["shin"][0] == "log2":
                lo, hi = 2 ** lo, 2 ** hi
        n = op["n1"] if kind == "1D" else op["n3"]
        vals = []
        for _ in range(4):
            x = self.r.randrange(n) / (n - 1)
            for c in range(3):
                y = x if kind == "1D" else self.r.randrange(n) / (n - 1)
                vals.append(dec(lo + y * (hi - lo) if self.chance(0.7) else self.r.uniform(lo, hi), 5))
        self.process("B", vals, 3)

    EXTS = ["spi1d", "spi3d", "spimtx", "csp", "clf", "ctl", "SPI1D", "Csp", "lut", "cube", "txt", "spi"]

    def C24(self):
        l = self.bake_list()
        for _ in range(self.pick([1, 2])):
            self.add(op="caps", exts=[self.pick(self.EXTS) for _ in range(4)], cap=self.pick(["read", "write1D", "write3D", "write1D3D1D"]))
        for i in range(self.pick([1, 2, 3])):
            e = self.pick(self.EXTS)
            path = self.pick(["o%d.%s", "o%d.%s", "o%d.v2.%s", "my.spi1d.o%d.%s", "clf.o%d.%s", " o %d.%s"]) % (i, e)
            if self.chance(0.3):
                self.add(op="junk", path=path)
            op = self.lutwrite(l, path, self.pick(["1D", "3D", "1D3D1D"]))
            op.update(n1=3, n3=2, na=3, nb=2)
        for i in range(self.pick([1, 2])):
            e = self.pick(["spi1d", "spi3d", "csp", "spimtx", "lut", "ctl", "cube", "CSP", "spi1"])
            low = e.lower()
            if low in ("spi1d", "spi3d", "csp"):
                f = self.lut_file(e, path=self.pick(["r%d.%s", "r%d.%s", "r%d.csp.%s", "v1.0_r%d.%s", "a b.%d.%s"]) % (i, e))
                self.add(op="lutread", id="R%d" % i, path=f["path"], inverse="", interp="linear")
                self.process("R%d" % i, self.lut_inputs(f, 2), 3)
                if self.chance(0.3):
                    self.add(op="lut2clf", path=f["path"], clf="c%d.clf" % i, inverse="", interp="linear")
            else:
                self.add(op="junk", path="r%d.%s" % (i, e))
                self.add(op=self.pick(["lutread", "lut2clf"]), id="R%d" % i, path="r%d.%s" % (i, e), clf="c%d.clf" % i, inverse="", interp="linear")

    def C27(self):
        kind = self.pick(["rich", "rich", "rich", "doc", "refs", "half", "big"])
        # an added index map points at entries the table does not have
        remapped = False
        if kind == "doc":
            d = self.doc()
            self.add(op="put", path="in.clf", doc=d, gz=False)
            l = "R"
            self.add(op="read", id=l, path="in.clf", strict=False)
        elif kind == "refs":
            self.ref_file("sub.clf")
            r = self.node("Reference", {"path": S("sub.clf")})
            l = self.list([self.of_type(self.pick(TYPES)), r])
            if self.chance(0.6):
                self.ref_file("sub.clf")
        elif kind == "half":
            n = self.halfdomain(raw=self.chance(0.5))
            l = self.list([n])
        elif kind == "big":
            a = self.depths()
            l = self.list([self.lut1d(a, n=self.pick([10, 11, 17]), maps=self.chance(0.3)), self.lut3d(a, dims=[3, 2, 4])])
            if self.chance(0.5):
                n = self.pick([14, 15, 16])
                m = {"keys": self.climbing(n, 0, 1, 6), "vals": [str(i) for i in range(n)]}
                self.add(op="call", id=self.ops[0]["id"], calls=[{"m": "setIndexMaps", "maps": [m]}])
                remapped = True
        else:
            l = self.rich_list(groups=0.4)
        quiet = kind in ("half", "doc")
        self.add(op="print", id=l, clf="")
        if not quiet and self.chance(0.5):
            self.add(op="write", id=l, path="p.clf", sc=self.chance(0.3), gz=False)
            self.add(op="print", id="", clf="p.clf")
        if kind in ("rich", "big", "refs") and not remapped and self.chance(0.5):
            self.process(l, self.pixels(2, 3), 3)
            self.add(op="print", id=l, clf="")
        if self.chance(0.3):
            self.add(op="get", id=l, what="members")

    # ------------------------------------------------------------ images
    IMAGE_TYPES = ["UINT8", "UINT16", "UINT16", "UINT16", "HALF", "HALF", "FLOAT"]

    def sample(self, t, bits, special=False):
        if t == "UINT8":
            return str(self.pick([0, 255, self.r.randrange(256), self.r.randrange(256)]))
        if t == "UINT16":
            n = bits or 16
            v = self.pick([0, 2 ** n - 1, self.r.randrange(2 ** n), self.r.randrange(2 ** n)])
            return str((v << (16 - n)) | (self.r.randrange(1 << (16 - n)) if self.chance(0.2) else 0))
        if special and self.chance(0.15):
            return self.pick(["inf", "-inf"] + (["nan"] if t == "FLOAT" else []))
        v = self.r.uniform(-0.5, 2) if self.chance(0.3) else self.r.uniform(0, 1)
        if t == "HALF":
            return frac(struct.unpack("<e", struct.pack("<e", v))[0])
        return f32tok(v)

    def image(self, path, ch=None, special=False, h=None, w=None, type_=None, even=False):
        t = type_ or self.pick(self.IMAGE_TYPES)
        bits = self.pick([0, 8, 10, 12, 16]) if t == "UINT16" else self.pick([0, 0, 8]) if t == "UINT8" else \
            self.pick([0, 0, {"HALF": 16, "FLOAT": 32}[t]])
        if t == "UINT16" and bits == 8:
            bits = 10
        w, h, ch = w or self.r.randint(1, 4), h or self.pick([1, 2, 3, 4, 5, 6]), ch or self.pick([1, 2, 3, 3, 3, 4, 4, 5])
        if even and w * h * ch % 2:
            w += 1
            if w * h * ch % 2:
                h += 1
        vals = [self.sample(t, bits, special) for _ in range(w * h * ch)]
        # the first sample tells the rows apart
        firsts = self.r.sample(range(h), h)
        for r in range(h):
            u = (firsts[r] + 1) / (h + 1)
            vals[r * w * ch] = {"UINT8": lambda: str(int(u * 255)), "UINT16": lambda: str(int(u * 2 ** (bits or 16)) << (16 - (bits or 16))),
                                "HALF": lambda: frac(struct.unpack("<e", struct.pack("<e", u))[0]), "FLOAT": lambda: f32tok(u)}[t]()
        meta = []
        if bits:
            meta.append({"name": "oiio:BitsPerSample", "type": "int", "v": str(bits)})
        for m in ({"name": "Artist", "type": "string", "v": self.pick(TEXTS)}, {"name": "compression", "type": "string", "v": "zip"},
                  {"name": "Orientation", "type": "int", "v": "1"}, {"name": "fps", "type": "float", "v": self.pick(["24", "1/2"])},
                  {"name": "worldtocamera", "type": "float[16]", "v": ",".join("1" if i % 5 == 0 else "0" for i in range(16))},
                  {"name": "CompressionQuality", "type": "int", "v": "90"}):
            if self.chance(0.3):
                meta.append(m)
        self.r.shuffle(meta)
        names = ["R", "G", "B", "A", "Z"][:ch] if ch > 2 else [["Y"], ["Y", "A"]][ch - 1]
        return self.add(op="image", path=path, type=t, w=w, h=h, ch=ch, names=names, meta=meta, vals=vals)

    def order(self, h, workers):
        """an order in which so many workers may finish the rows"""
        todo, busy, done = list(range(1, h + 1)), [], []
        while todo or busy:
            while todo and len(busy) < workers:
                busy.append(todo.pop(0))
            done.append(busy.pop(self.r.choice([0, -1, self.r.randrange(len(busy))])))
        return done

    def filter(self, img, src, dst, lid="", clf="", workers=1, order=None, fail=0, **kw):
        op = dict(op="filter", id=lid, clf=clf, depth=self.pick(["", "", "8i", "10i", "12i", "16i", "16f", "32f"]), workers=workers,
                  compression=self.pick(["", "", "lzw"]), quality=self.pick([0, 0, 75]), verbose=self.chance(0.15), fault="",
                  oiio=self.pick([10700, 10900]), fail=fail, order=order or [])
        op.update(kw)
        op["in"], op["out"] = src, dst
        if img["w"] * img["h"] * img["ch"] % 2:
            op["oiio"] = 10900
        return self.add(**op)

    def C25(self):
        ch = self.pick([1, 2, 3, 3, 3, 4, 4, 5])
        special = self.chance(0.2)
        img = self.image("in.tif", ch, special)
        if self.chance(0.04):
            img = self.image("in.tif", ch, h=self.pick([101, 130]), w=1, type_="UINT16")
        ints = self.chance(0.5)
        kinds = TYPES if ch >= 3 else ["Range", "Matrix", "LUT1D", "ASC_CDL"]
        ids = []
        for _ in range(self.pick([1, 1, 2, 3])):
            t = self.pick(kinds)
            a = {"inBitDepth": S(self.depth(0.4 if ints else 0)), "outBitDepth": S(self.depth(0.4 if ints else 0))}
            if t == "Matrix":
                ids.append(self.matrix(a, dims=self.pick([(3, 3), (3, 4)]) if ch >= 3 else (1, 2)))
            elif t == "ColorCorrection":
                ids.append(self.cdl({}, type_=t))
            elif t == "LUT1D" and self.chance(0.1):
                ids.append(self.halfdomain({"inBitDepth": S("16f"), "outBitDepth": S("16f")}))
            else:
                ids.append(self.of_type(t, a))
        l = self.list(ids)
        fdep = ["", "16f", "32f"] if img["type"] in ("HALF", "FLOAT") else ["16f", "32f"]
        dep = lambda: {"depth": self.pick(fdep)} if special else {}
        what = self.pick(["plain", "plain", "two", "two", "chain", "tool", "tool", "fail", "fault", "missing", "depth"])
        h = img["h"]
        many = self.pick([1, 2, 2, 3, 4])
        go = lambda dst, **kw: self.filter(img, "in.tif", dst, l, workers=many, order=self.order(h, many) if many > 1 and h < 9 else [], **dict(dep(), **kw))
        if what == "plain":
            go("out.tif")
        elif what == "two":
            d = dep().get("depth", self.pick(["", "8i", "10i", "16i", "16f"]))
            go("a.tif", depth=d)
            many = self.pick([1, 2, 3])
            go("b.tif", depth=d)
        elif what == "chain":
            go("mid.tif", depth=self.pick(["", "16f", "32f"]) if not special else self.pick(fdep))
            self.filter(img, "mid.tif", self.pick(["out.tif", "mid.tif", "in.tif"]), l, workers=self.pick([1, 2]), **dep())
        elif what == "tool":
            self.add(op="write", id=l, path="t.clf", sc=False, gz=False)
            self.filter(img, "in.tif", "out.tif", "", "t.clf", workers=self.pick([0, 1, 2, 5]), quality=self.pick([0, 75]), **dep())
        elif what == "fail":
            if self.chance(0.5):
                go("out.tif")
            go("out.tif", fail=self.r.randint(1, h) if h < 9 else 1)
        elif what == "fault":
            if self.chance(0.5):
                go("out.tif")
            go("out.tif", fault=self.pick(["create", "open", "write", "raise"]))
        elif what == "missing":
            if self.chance(0.5):
                self.add(op="junk", path="x.tif")
            self.filter(img, "x.tif", "out.tif", l, workers=self.pick([1, 2]))
        else:
            self.add(op="write", id=l, path="t.clf", sc=False, gz=False)
            self.filter(img, "in.tif", "out.tif", "", "t.clf", depth=self.pick(["9i", "UINT8", "8I", "float"]))
            if not special or img["type"] in ("HALF", "FLOAT"):
                self.filter(img, "in.tif", "out.tif", l, depth=self.pick(["9i", "UINT8"]))

    # ------------------------------------------------------------ colour spaces
    def transforms(self, state, files, depth=0):
        """a transform that suits values like those of state, which it updates"""
        k = self.r.random()
        if depth < 3 and k < 0.3:
            kids = [self.transforms(state, files, depth + 1) for _ in range(self.pick([0, 1, 2, 2, 3]))]
            return {"t": "group", "kids": kids}
        if depth == 0 and k < 0.36:
            return {"t": "none"}
        if k < 0.55:
            bases = [b for b in ("2", "10") if state["of"] in ("unit", "log" + b)]
            if bases and self.chance(0.6):
                b = self.pick(bases)
                state["of"] = "big"
                return {"t": "log", "base": b, "dir": "inverse"}
            b = self.pick(["2", "10"])
            state["of"] = "log" + b if not state["of"].startswith("log") else "deep"
            return {"t": "log", "base": b, "dir": "forward"}
        if k < 0.8 and files:
            f = self.pick(files)
            e = f["path"].rsplit(".", 1)[1]
            rising = f["fmt"] == "1d" and e == "spi1d"
            if rising and self.chance(0.5):
                state["wide"] = True
                d = "inverse"
            elif state["wide"] and not (rising or (f["fmt"] == "1d" and f["rising"])):
                return self.transforms(state, [], depth + 1)
            else:
                d = "forward"
            state["of"] = "unit"
            ip = self.pick(["linear", "linear", "best"]) if f["fmt"] == "1d" else "linear" if e == "csp" else self.pick(["linear", "tetrahedral"])
            return {"t": "file", "src": f["src"], "interp": ip, "dir": d}
        m, o = ["0"] * 16, ["0"] * 4
        what = self.pick(["scale", "3x3", "3x3", "offset", "3x4", "full", "fulloffset"])
        for i in range(4):
            for j in range(4):
                m[i * 4 + j] = "1" if i == j else "0"
        n = 4 if what.startswith("full") else 3
        for i in range(n):
            for j in range(n):
                if what == "offset":
                    continue
                if what == "scale":
                    m[i * 4 + j] = self.num(0.3, 1.2) if i == j else "0"
                else:
                    m[i * 4 + j] = self.num(-0.5, 1.1)
        if what in ("offset", "3x4", "fulloffset"):
            o[:n] = self.nums(n, -0.4, 0.4)
            if self.chance(0.3):
                z = self.r.randrange(n)
                o = [o[i] if i == z else "0" for i in range(4)]
            elif self.chance(0.3):
                # offsets that add up to nothing
                x = self.pick(["0.25", "0.125", "0.0625"])
                o = self.pick([[x, "-" + x, "0", "0"], ["0", x, "-" + x, "0"], ["-" + x, "0", x, "0"], ["-0.25", "0.125", "0.125", "0"]])
        return {"t": "matrix", "m": m, "o": o}

    def C26(self):
        search = self.pick(["luts", "luts", "", "a/b"])
        config = self.pick(["config.ocio", "conf/config.ocio"])
        folder = "/".join(x for x in (config.rpartition("/")[0], search) if x)
        files = []
        with_files = self.chance(0.75)
        for i in range(self.pick([1, 2, 3]) if with_files else 0):
            e = self.pick(["spi1d", "spi1d", "spi3d", "csp"])
            src = "%s%d.%s" % (self.pick(["f", "f", "sub/f"]), i, e)
            rising = self.chance(0.7)
            op = self.lut_file(e, comps=self.pick([1, 3]), rising=e == "spi1d" or rising, flat=self.pick([0, 0, 0.2]),
                               path=(folder + "/" if folder else "") + src)
            files.append(dict(op, src=src, rising=rising))
        names = self.r.sample(["lin", "log space", "ACES - ACEScg", "out & back", "raw"], self.pick([2, 3, 4]))
        for _ in range(self.pick([1, 1, 2])):
            spaces = []
            sources = [self.pick(names) for _ in range(self.pick([0, 1, 1, 1, 2]))]
            dests = [self.pick(names) for _ in range(self.pick([0, 1, 1, 2]))]
            if not sources and not dests:
                dests = [names[0]]
            state = {"of": "unit", "wide": False}
            done = {}
            # the chain decides what may follow, so that a space used twice comes back in another state
            for part, seq in (("to", sources), ("from", dests)):
                seq[:] = list(dict.fromkeys(seq))
                for n in seq:
                    done[n, part] = self.transforms(state, files)
            for n in names:
                st = {"of": "deep", "wide": True}
                spaces.append({"name": n, "to": done.get((n, "to")) or self.transforms(st, []),
                               "from": done.get((n, "from")) or self.transforms(st, [])})
            used = json.dumps(list(done.values()))
            if files and self.chance(0.06):
                gone = self.pick(files)["src"]
                spaces[0]["to"] = {"t": "group", "kids": [spaces[0]["to"], {"t": "file", "src": gone + "x", "interp": "linear", "dir": "forward"}]}
            self.add(op="config", path=config, search=search, spaces=spaces)
            inverse = '"file"' in used and '"inverse"' in used and any(f["src"] in used and f["fmt"] == "1d" for f in files)
            method = self.pick(["index", "index", "index", "resample", "resample", "both"]) if not self.chance(0.05) else "half"
            out = self.pick(["out.clf", "out.clf", "other.clf"])
            self.add(op="ocio", config=config, sources=sources, dests=dests, out=out, maps=method in ("index", "both"),
                     half=method in ("half", "both"), via=self.pick(["function", "main"]))
            lost = any(any(e + 'x"' in json.dumps(s["to"]) for e in (".spi1d", ".spi3d", ".csp")) and s["name"] in sources for s in spaces)
            if lost or not self.has_steps(sources, dests, spaces):
                continue
            self.add(op="read", id="L", path=out, strict=True)
            ch = 4 if '"file"' not in used and self.chance(0.4) else 3
            for _ in range(self.pick([1, 2])):
                vals = self.pixels(2, ch, "16f", 0.2)
                used_files = [f for f in files if f["src"] in used]
                if used_files and self.chance(0.6):
                    vals = self.lut_inputs(self.pick(used_files), 2) if ch == 3 else vals
                self.process("L", vals, ch)

    def has_steps(self, sources, dests, spaces):
        def any_(t):
            return t["t"] == "group" and any(any_(k) for k in t["kids"]) or t["t"] not in ("group", "none")
        by = {s["name"]: s for s in spaces}
        return any(any_(by[n]["to"]) for n in sources) or any(any_(by[n]["from"]) for n in dests)


WIDE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C28", "C30"}


def programs(prop, seed, count):
    for i in range(count):
        g = Gen("%s/%s/%d" % (prop, seed, i))
        g.wide = prop in WIDE and g.chance(0.25)
        getattr(g, prop)()
        for op in g.ops:
            if op["op"] == "put" and g.chance(0.6):
                op["style"] = 1 + g.r.randrange(10**6)
        yield {"h": g.ops}


if __name__ == "__main__":
    prop, seed, count, out = sys.argv[1:5]
    with open(out, "w") as f:
        for p in programs(prop, seed, int(count)):
            f.write(json.dumps(p) + "\n")
