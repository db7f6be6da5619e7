"""Programs of uncommon size: long buffers, long lists, deep nesting, large
tables, lattices, images and files.  Big programs of a property are a method
of its name, as the ordinary ones in gen.py."""
import gen
from gen import B, DEPTHS, ENCS, S, SIZE, TYPES, NEED3, dec, frac, half

PIXELS = [33, 64, 65, 100, 129, 200, 256, 257, 300, 513, 700, 1025, 1400]
TABLE = [64, 100, 129, 256, 257, 500, 1000, 1024, 1025, 4096]
CUBES = [[7, 7, 7], [8, 8, 8], [9, 9, 9], [16, 16, 16], [17, 17, 17], [33, 33, 33], [33, 2, 3], [2, 65, 3], [3, 2, 129], [12, 20, 7], [17, 9, 33]]


class Big(gen.Gen):
    def recycle(self, make):
        """many short-lived nodes: what the dropped ones took is used again"""
        for _ in range(self.pick([6, 9])):
            gone = []
            for _ in range(self.pick([8, 12])):
                i = make()
                l = self.list([i])
                self.process(l, self.pixels(1, 3), 3)
                gone += [i, l]
            self.add(op="drop", ids=gone)

    def many(self, ch, n=None, d="16f", wild=0.3, extras=None):
        """a long buffer, of few or of many different pixels"""
        n = n or self.pick(PIXELS)
        pool = [self.pixels(1, ch, d, wild, extras) for _ in range(self.pick([5, 40, 200]))]
        return [v for _ in range(n) for v in self.pick(pool)]

    def long_of(self, t, a=None, ch=None, wild=0.3, extras=None):
        n = self.of_type(t, a)
        at = self.ops[-1]["args"].get("inBitDepth", S("16f"))["v"]
        l = self.list([n])
        ch = ch or self.pick([3, 3, 4, 5])
        px = self.many(ch, None, at, wild, extras)
        self.process(l, px, ch, self.pick(["list", "f32", "f64", "tuple"]))
        self.process(l, px[:ch], ch)

    def plain(self):
        return dict({"inBitDepth": S("16f"), "outBitDepth": S(self.pick(["16f", "32f"]))}, **self.names())

    def gentle(self):
        """a node that changes values little, for very long chains"""
        t = self.pick(["Range", "Matrix", "LUT1D", "ASC_CDL", "Range", "Matrix"])
        a = self.plain()
        if t == "Range":
            return self.node("Range", dict(a, style=S(self.pick(["clamp", "noClamp"]))), [
                {"m": "setMinInValue", "n": "0"}, {"m": "setMaxInValue", "n": "1"},
                {"m": "setMinOutValue", "n": self.num(0, 0.1, 3)}, {"m": "setMaxOutValue", "n": self.num(0.9, 1.1, 3)}])
        if t == "Matrix":
            off = [self.num(-0.05, 0.05, 3) for _ in range(3)]
            return self.node("Matrix", a, [{"m": "setMatrix", "dims": [3, 4, 3], "enc": "string",
                                            "vals": ["0.9", "0.1", "0", off[0], "0", "0.95", "0.05", off[1], "0.05", "0", "0.95", off[2]]}])
        if t == "LUT1D":
            return self.lut1d(a, self.pick([3, 5, 9]), self.pick([1, 3]), rough=False)
        return self.node("ASC_CDL", dict(a, style=S(self.pick(["Fwd", "FwdNoClamp"]))), self.cdl_calls(3, tame=True))

    def C01(self):
        if self.chance(0.5):
            l = self.list([self.gentle() for _ in range(self.pick([10, 12, 17, 20, 33, 65]))])
            ch = self.pick([3, 4])
            px = self.pixels(2, ch)
            self.process(l, px, ch, verbose=self.chance(0.2))
            self.process(l, self.pixels(1, ch), 0)
            self.process(l, px, ch)
        else:
            l = self.list([self.gentle() for _ in range(self.pick([1, 1, 2, 3]))])
            ch = self.pick([3, 4])
            px = self.many(ch, self.pick(PIXELS + [2050, 3000]) if len(self.ops) < 5 else None)
            for _ in range(2):
                self.process(l, px, ch, self.pick(["list", "tuple", "f32", "f64"]))
            self.process(l, px[-ch:], ch)

    def C02(self):
        if self.chance(0.4):
            # very long: of the cheaper nodes
            t = self.pick(["Range", "Matrix", "ASC_CDL", "LUT1D"])
            a = {"inBitDepth": S("16f"), "outBitDepth": S("32f")}
            n = self.matrix(a, (3, 4)) if t == "Matrix" else self.lut1d(a, 9, 3) if t == "LUT1D" else self.of_type(t, a)
            l = self.list([n])
            ch = self.pick([3, 4, 5])
            self.process(l, self.many(ch, self.pick([1366, 1400, 2049, 2731, 4097])), ch, self.pick(["list", "f32"]))
            return
        self.long_of(self.pick(TYPES))

    def C03(self):
        t = self.pick(["LUT1D", "LUT3D", "Matrix", "ASC_CDL", "ColorCorrection", "Gamma", "Log", "ExposureContrast"])
        a = {"inBitDepth": S("16f"), "outBitDepth": S(self.pick(["16f", "10i"]))}
        ch = self.pick([4, 5, 8, 9, 16, 17, 31])
        n = self.of_type(t, a) if t != "Matrix" else self.matrix(a, dims=self.pick([(3, 3), (3, 4), (2, 2)]))
        l = self.list([n])
        self.process(l, self.many(ch, self.pick([3, 20, 33, 65, 129]), extras=self.EXTRAS), ch)

    def C04(self):
        self.long_of("Range", wild=0.6)

    def C05(self):
        ds = [self.pick(DEPTHS) for _ in range(self.pick([6, 9, 13]))]
        ids = [self.node("Range", {"inBitDepth": S(a), "outBitDepth": S(b), "style": S("noClamp")}) for a, b in zip(ds, ds[1:])]
        l = self.list(ids)
        ch = self.pick([3, 4])
        self.process(l, self.many(ch, self.pick([40, 200, 300]), ds[0]), ch)

    def C06(self):
        k = self.pick([3, 5, 6, 7, 8, 9, 12, 16])
        if self.chance(0.6):
            k = self.pick([3, 3, 4])
            dims = (k, k + self.pick([0, 0, 1]))
            l = self.list([self.node("Matrix", self.depths(), [{"m": "setMatrix", "dims": [dims[0], dims[1], 3], "enc": "string",
                                                                "vals": self.structured(*dims)}])])
            self.process(l, self.many(3, self.pick([64, 65, 100, 129, 257])), 3)
            if self.chance(0.5):
                self.process(l, self.many(4, self.pick([65, 129])), 4)
            return
        dims = (k, k + self.pick([0, 1]))
        l = self.list([self.matrix(dims=dims)])
        for ch in sorted({k, max(1, k - self.pick([1, 2, 3])), k + self.pick([1, 3])}):
            self.process(l, self.many(ch, self.pick([1, 2, 20, 65])), ch)

    def edges(self, n, k, count):
        """around the entries of a table, most of all the last and the middle ones"""
        out = []
        for _ in range(count):
            i = self.pick([self.r.randrange(n - 1), n - 2, n - 3, n - 1, n // 2, n // 2 - 1, 0, 1, 255, 256, 1023]) % n
            f = self.pick([0, 0, 0.25, 0.5, 0.75, self.r.random()])
            out.append(dec((i + f) / (n - 1) * k, 9))
        return out

    def C07(self):
        n = self.pick(TABLE + [16385, 65536])
        a = {"inBitDepth": S(self.pick(["16f", "32f", "10i", "12i", "16i"])), "outBitDepth": S(self.pick(DEPTHS))}
        l = self.list([self.lut1d(a, n, 1 if n > 5000 else self.pick([1, 3]), interp="linear")])
        k = SIZE[a["inBitDepth"]["v"]]
        self.process(l, self.edges(n, k, 30), 3)
        if n < 1030:
            self.process(l, self.many(3, None, a["inBitDepth"]["v"]), 3)

    def C08(self):
        l = self.list([self.halfdomain({"inBitDepth": S(self.pick(["16f", "32f"])), "outBitDepth": S("16f")})])
        self.process(l, self.half_inputs(self.pick([99, 300, 600])), 3)

    def C09(self):
        dims = self.pick(CUBES)
        a = {"inBitDepth": S(self.pick(["16f", "10i"])), "outBitDepth": S("16f")}
        l = self.list([self.lut3d(a, dims=dims, interp=self.pick(["trilinear", "tetrahedral"]))])
        k = SIZE[a["inBitDepth"]["v"]]
        cols = [self.edges(n, k, 40) for n in dims]
        self.process(l, [c for px in zip(*cols) for c in px], 3)

    def C10(self):
        self.long_of(self.pick(["ASC_CDL", "ASC_CDL", "ColorCorrection"]), wild=0.5)

    def C11(self):
        self.long_of("Gamma", wild=0.5)

    def C12(self):
        self.long_of("Log", wild=0.5)

    def C13(self):
        self.long_of("ExposureContrast", wild=0.5)

    def C14(self):
        ids = []
        for _ in range(self.pick([6, 10, 16])):
            i = self.gentle()
            if self.chance(0.4):
                self.add(op="call", id=i, calls=[{"m": "setAttribute", "k": "bypass", "v": self.pick([b for b in self.BYPASS if b is not None])}])
            ids.append(i)
        for _ in range(self.pick([0, 2, 4])):
            g = self.node("Group", {"inBitDepth": S("16f"), "outBitDepth": S("16f")})
            k = self.r.randint(1, len(ids))
            for i in ids[:k]:
                self.add(op="add", id=g, node=i)
            if self.chance(0.2):
                self.add(op="call", id=g, calls=[{"m": "setAttribute", "k": "bypass", "v": B(True)}])
            ids[:k] = [g]
        l = self.list(ids)
        ch = self.pick([3, 4])
        px = self.many(ch, self.pick([2, 2, 65, 129]))
        self.process(l, px, ch)
        self.add(op="feats", v=14)
        self.process(l, px, ch)

    def C15(self):
        what = self.pick(["deep", "wide", "chain", "long"])
        ch = self.pick([3, 4])
        if what == "chain":
            last = "r0.clf"
            self.add(op="write", id=self.list([self.gentle()]), path=last, sc=False, gz=False)
            for k in range(1, self.pick([4, 6, 9])):
                r = self.node("Reference", {"path": S(last)})
                ids = [r] + ([self.gentle()] if self.chance(0.6) else [])
                self.r.shuffle(ids)
                last = "r%d.clf" % k
                self.add(op="write", id=self.list(ids), path=last, sc=False, gz=False)
            ids = [self.node("Reference", {"path": S(last)})]
        elif what == "deep":
            ids = [self.gentle()]
            for _ in range(self.pick([5, 8, 12])):
                g = self.node("Group", self.names())
                for i in ids:
                    self.add(op="add", id=g, node=i)
                ids = [g]
                if self.chance(0.5):
                    ids.insert(self.pick([0, 1]), self.gentle())
        else:
            g = self.node("Group", self.names())
            for _ in range(self.pick([9, 16, 33]) if what == "wide" else 2):
                self.add(op="add", id=g, node=self.gentle())
            ids = [g]
        l = self.list(ids)
        self.process(l, self.pixels(2, ch) if what != "long" else self.many(ch), ch)
        self.add(op="write", id=l, path="all.clf", sc=self.chance(0.5), gz=False)
        self.add(op="read", id="R", path="all.clf", strict=True)
        self.process("R", self.pixels(2, ch), ch)

    LONGER = "".join("word%d %s " % (i, "<&>" if i % 5 == 0 else "é" if i % 7 == 0 else "") for i in range(300)).strip()

    def big_list(self):
        ids = []
        what = self.pick(["nodes", "table", "cube", "texts"])
        if what == "nodes":
            ids = [self.rich_node(0.2) for _ in range(self.pick([8, 12, 20, 40]))]
        elif what == "table":
            ids = [self.lut1d(self.plain(), self.pick(TABLE), self.pick([1, 3]), enc=self.pick(ENCS + ["string"] * 4))]
        elif what == "cube":
            ids = [self.lut3d(self.plain(), self.pick([c for c in CUBES if c[0] * c[1] * c[2] < 5000]), enc=self.pick(ENCS + ["string"] * 4))]
        else:
            ids = [self.rich_node(0)]
            self.add(op="call", id=ids[0], calls=[{"m": "addDescription", "s": self.pick(self.notes + [self.LONGER])} for _ in range(12)])
        l = self.list(ids, calls=self.list_calls())
        if what == "texts":
            self.add(op="call", id=l, calls=[{"m": "addDescription", "s": self.LONGER}] + [{"m": "setAttribute", "k": "a%d" % i, "v": S("v%d" % i)} for i in range(20)])
        return l

    def C16(self):
        self.notes = gen.TEXTS + gen.NOTES
        if self.chance(0.25):
            l = self.list([self.halfdomain(raw=self.pick([None, True, False]), ch=self.pick([1, 1, 3]))])
            self.add(op="write", id=l, path="a.clf", sc=False, gz=self.chance(0.3))
            self.add(op="read", id="R", path="a.clf", strict=True)
            self.process("R", self.half_inputs(9), 3)
            return
        l = self.big_list()
        gz = self.chance(0.3)
        self.add(op="write", id=l, path="a.clf", sc=False, gz=gz)
        self.add(op="read", id="R", path="a.clf", strict=True)
        self.add(op="get", id="R", what="members")
        self.process("R", self.pixels(2, 3), 3)
        self.add(op="write", id="R", path="b.clf", sc=False, gz=False)

    def C17(self):
        enc = self.pick(ENCS + ["string"])
        if self.chance(0.5):
            n = self.pick(TABLE)
            i = self.lut1d(self.plain(), n, 1, enc=enc)
        else:
            n = 729
            i = self.lut3d(self.plain(), [9, 9, 9], enc=enc)
        c = [c for c in self.ops[-1]["calls"] if c["m"] == "setArray"][0]
        if enc != "string":
            some = self.enc_values(enc, 200)
            c["vals"] = [v if enc != "hex32bit" or v in ("nan", "inf", "-inf", "-0") or abs(eval(v)) < 1e38 else "1" for v in (self.pick(some) for _ in c["vals"])]
        l = self.list([i])
        self.add(op="write", id=l, path="a.clf", sc=False, gz=False)
        self.add(op="read", id="R", path="a.clf", strict=True)
        self.add(op="write", id="R", path="b.clf", sc=False, gz=False)

    def C19(self):
        base = ["Range", "Matrix", "LUT1D", "ASC_CDL", "ColorCorrection", "Gamma", "Log"]
        d = self.doc(depth=1)
        d["kids"] = [k for _ in range(self.pick([4, 8])) for k in self.doc(depth=1, types=base)["kids"]]
        for _ in range(self.pick([0, 1, 6])):
            d["kids"].insert(self.r.randrange(len(d["kids"]) + 1), self.el(self.pick(self.UNKNOWN), {"a": "b"}))
        self.add(op="put", path="d.clf", doc=d, gz=False)
        self.add(op="read", id="S", path="d.clf", strict=True)
        self.add(op="read", id="R", path="d.clf", strict=False)
        self.add(op="get", id="R", what="members")
        self.add(op="write", id="R", path="o.clf", sc=False, gz=False)

    def C20(self):
        ids = []
        for _ in range(self.pick([5, 8, 12])):
            i = self.reference(missing=self.chance(0.15))[0] if self.chance(0.4) else self.gentle()
            for _ in range(self.pick([0, 0, 1, 3])):
                g = self.node("Group", self.names())
                self.add(op="add", id=g, node=i)
                i = g
            ids.append(i)
        l = self.list(ids)
        for k in range(6):
            self.add(op="write", id=l, path="p%d.clf" % (k % 4), sc=k % 2 == 0, gz=k == 3)
        self.process(l, self.pixels(1, 3), 3)
        self.add(op="get", id=l, what="members")

    def C21(self):
        e = self.pick(["spi1d", "spi1d", "spi3d", "csp", "csp"])
        op = self.lut_file(e, sizes=TABLE, cubes=[c for c in CUBES if c[0] * c[1] * c[2] < 8000])
        self.add(op="lutread", id="L", path=op["path"], inverse="", interp="linear")
        self.process("L", self.lut_inputs(op, 30), 3)

    def C22(self):
        l = self.list([self.gentle() for _ in range(self.pick([1, 2]))])
        e, kind = self.pick([("spi1d", "1D"), ("spi1d", "1D"), ("spi3d", "3D"), ("csp", "1D"), ("csp", "3D"), ("csp", "1D3D1D"),
                             ("ctl", "1D"), ("ctl", "3D"), ("clf", "1D3D1D")])
        via, clf = self.pick(["registry", "tool", "main"]), ""
        if via != "registry":
            l, clf = "", "in.clf"
            self.add(op="write", id=self.ops[-1]["id"], path=clf, sc=False, gz=False)
        op = self.lutwrite(l, "out." + e, kind, via, clf)
        op.update(n1=self.pick([64, 257, 1024, 1024, 4100]), n3=self.pick([7, 9, 13, 33]), na=self.pick([33, 65]), nb=self.pick([17, 65]))
        if self.chance(0.3):
            op.update(na=1024, n3=33, nb=2)

    def C23(self):
        op = self.lut_file("spi1d", comps=self.pick([1, 3]), rising=True, flat=self.pick([0, 0, 0.2]), sizes=[33, 65, 100, 129, 256])
        n, comps = op["dims"][0], op["comps"]
        method = self.pick(["index", "resample"])
        self.add(op="lutread", id="L", path=op["path"], inverse=method, interp="linear")
        cols = [[float(op["vals"][i * comps + (c if comps == 3 else 0)]) for i in range(n)] for c in range(3)]
        vals = []
        for _ in range(15):
            for c in range(3):
                i = self.pick([self.r.randrange(n - 1), n - 2, 0])
                a, b = cols[c][i], cols[c][i + 1]
                vals.append(dec(a + (b - a) * self.pick([0, 1, self.r.random()]), 6))
        self.process("L", vals, 3)

    def C25(self):
        w, h = self.pick([(1, 257), (64, 9), (130, 3), (33, 34), (300, 2), (17, 65), (7, 101)])
        ch = self.pick([3, 4])
        img = self.image("in.tif", ch, h=h, w=w)
        l = self.list([self.gentle() for _ in range(self.pick([1, 2]))])
        dep = self.pick(["", "", "8i", "10i", "16f"])
        for workers, out in ((1, "a.tif"), (self.pick([2, 3, 4]), "b.tif")):
            self.filter(img, "in.tif", out, l, workers=workers, order=[], depth=dep)

    def C27(self):
        l = self.big_list()
        self.add(op="print", id=l, clf="")

    def C28(self):
        nodes = []
        for k in range(self.pick([17, 33, 60])):
            nodes.append(self.node("Range", dict(self.depths(), name=S("n%d" % (k % 29)), id=S("i%d" % k)), [{"m": "setMinInValue", "n": str(k)}]))
        l = self.list(nodes)
        for _ in range(10):
            n = self.pick(nodes)
            self.add(op="call", id=n, calls=[self.pick([{"m": "setInBitDepth", "s": self.pick(DEPTHS)}, {"m": "setMaxInValue", "n": "100"},
                                                       {"m": "setAttribute", "k": "u", "v": S("text")}])])
        self.add(op="call", id=l, calls=[{"m": "setInBitDepth", "s": "12i"}, {"m": "setOutBitDepth", "s": "8i"}])
        for w in ("members", "len", "inBitDepth", "outBitDepth"):
            self.add(op="get", id=l, what=w)
        for _ in range(4):
            self.places(l)
        for k in ("n0", "n16", "n28", "n3", "nobody"):
            self.add(op="get", id=l, what="find", k=k)
        for n in self.r.sample(nodes, 8):
            self.gets(n, "Range", l)

    def C29(self):
        nid = self.id("n")
        base = dict(op="sampled", id=nid, nid="id1", name="sampled", din="16f", dout="16f")
        if self.chance(0.6):
            n = self.pick(TABLE) if self.chance(0.6) else self.pick([4096, 4097, 5000, 8192])
            self.add(f=self.nums(3, -1, 1), n=n, ch=self.pick([1, 3]), kind="1d", **base)
            vals = self.edges(n, 1, 30)
        else:
            dims = self.pick([c for c in CUBES if c[0] * c[1] * c[2] < 6000])
            self.add(f=[self.nums(5, -1, 1) for _ in range(3)], dims=dims, kind="3d", **base)
            vals = [dec(self.r.randrange(n) / (n - 1), 7) for _ in range(20) for n in dims]
        l = self.list([nid])
        self.add(op="get", id=nid, what="lutDims")
        self.process(l, vals, 3)

    def C30(self):
        n = self.pick([16, 33, 64, 65, 129, 257, 1000])
        a = {"inBitDepth": S(self.pick(["16f", "10i"])), "outBitDepth": S("16f")}
        k = SIZE[a["inBitDepth"]["v"]]
        i = self.lut1d(a, n, self.pick([1, 3]), interp="linear")
        mp = [{"keys": self.climbing(n, 0, k, 5), "vals": [str(v) for v in range(n)]} for _ in range(self.pick([1, 3]))]
        self.add(op="call", id=i, calls=[{"m": "setIndexMaps", "maps": mp}])
        l = self.list([i])
        vals = []
        for _ in range(45):
            m = self.pick(mp)
            j = self.pick([self.r.randrange(n - 1), 0, n - 2])
            a, b = float(m["keys"][j]), float(m["keys"][j + 1])
            vals.append(dec(self.pick([a, b, a + (b - a) * self.r.random()]), 6))
        self.process(l, vals, 3)
        if n < 300:
            self.add(op="write", id=l, path="x.clf", sc=False, gz=False)
            self.add(op="read", id="R", path="x.clf", strict=True)
            self.process("R", vals[:9], 3)


RECYCLED = {"C02": TYPES, "C04": ["Range"], "C05": TYPES, "C06": ["Matrix"], "C07": ["LUT1D"], "C09": ["LUT3D"], "C10": ["ASC_CDL", "ColorCorrection"],
            "C11": ["Gamma"], "C12": ["Log"], "C13": ["ExposureContrast"], "C30": ["LUT1D", "LUT3D"], "C01": TYPES, "C28": TYPES}


def programs(prop, seed, count):
    if not hasattr(gen.Gen, prop) or prop not in vars(Big):
        return
    if prop in RECYCLED:
        for k in range(max(1, count // 8)):
            g = Big("%s/%s/recycled/%d" % (prop, seed, k))
            t = g.pick(RECYCLED[prop])
            p = {"inBitDepth": S("16f"), "outBitDepth": S("16f")}
            if prop == "C30":
                g.recycle(lambda: g.of_type(t, p, maps=True))
            elif t == "Matrix":
                g.recycle(lambda: g.matrix(p, g.pick([(3, 3), (3, 4)])))
            else:
                g.recycle(lambda: g.of_type(t, g.depths() if prop == "C05" else p))
            yield {"h": g.ops}
    for i in range(count):
        g = Big("%s/%s/big/%d" % (prop, seed, i))
        getattr(g, prop)()
        yield {"h": g.ops}
