"""LUT files for the driver: written, parsed and converted."""
import json
import os
import re
import runpy
import sys
import zlib
from random import Random

import aces.clf as clf
import aces.lutFormats as lf
import aces.convertCLFtoLUT as toLut
import aces.convertLUTtoCLF as toClf

tool_clf = sys.modules["clf"]
REPO = os.environ.get("CLF_REPO", "/repo")


def features(v):
    tool_clf.setFeatureCompatibility(v)


def ext(path):
    return path.rsplit(".", 1)[-1].lower()


# ---------------------------------------------------------------- writing
def text(t):
    if "/" in t:
        n, d = t.split("/")
        return repr(int(n) / int(d))
    return t


def noisy(lines, r, chance):
    out = []
    for l in lines:
        if r.random() < chance:
            out.append(r.choice(["", "   ", ""]))
        out.append(l)
    return out


def dump(op):
    r = Random(op["noise"])
    v = [text(t) for t in op["vals"]]
    e = ext(op["path"])
    pad = lambda s: r.choice(["", " ", "\t", "    "]) + s + r.choice(["", "", " "])
    lines = []
    if e == "spi1d":
        n, c = op["dims"][0], op["comps"]
        lines = ["Version 1"]
        head = ["From %s %s" % tuple(text(t) for t in op["from"]), "Length %d" % n, "Components %d" % c]
        if op["noise"] % 3 == 1:
            r.shuffle(head)
        if [float(text(t)) for t in op["from"]] == [0, 1] and op["noise"] % 5 == 2:
            head = [h for h in head if not h.startswith("From")]
        lines += head + ["{"]
        # mostly an entry per line, sometimes several, or a number per line
        per = {3: 2 * c, 6: 3 * c, 7: n * c, 9: 1}.get(op["noise"] % 11, c)
        lines += [pad(r.choice([" ", "  ", "\t"]).join(v[i:i + per])) for i in range(0, n * c, per)]
        lines += ["}"]
        if op["noise"] % 2:
            lines = lines[:1] + noisy(lines[1:], r, 0.3)
    elif e == "spi3d":
        a, b, c = op["dims"]
        lines = ["SPILUT 1.0", "3 3", "%d %d %d" % (a, b, c)]
        for i in range(a * b * c):
            lines.append(pad("%d %d %d %s" % (i // (b * c), i // c % b, i % c, " ".join(v[i * 3:i * 3 + 3]))))
        if op["noise"] % 2:
            lines = lines[:3] + noisy(lines[3:], r, 0.2)
    else:
        one = op["fmt"] == "1d"
        lines = ["CSPLUTV100", "1D" if one else "3D", "", "BEGIN METADATA"]
        if op["noise"] % 2:
            lines += ["a comment: 1 2 3", "", "3D 0.5"]
        lines += ["END METADATA"] + [""] * (op["noise"] % 4)
        pre = op["pre"] or [{"keys": op["from"], "vals": ["0", "1"]}] * 3
        for p in pre:
            lines += [str(len(p["keys"])), " ".join(text(t) for t in p["keys"]), pad(" ".join(text(t) for t in p["vals"]))]
        lines += [""] * (op["noise"] % 3)
        lines += [" ".join(str(d) for d in op["dims"])]
        if one:
            body = [pad(" ".join(v[i * 3:i * 3 + 3])) for i in range(op["dims"][0])]
        else:
            a, b, c = op["dims"]
            body = []
            for k in range(c):
                for j in range(b):
                    for i in range(a):
                        q = ((i * b + j) * c + k) * 3
                        body.append(pad(" ".join(v[q:q + 3])))
        lines += noisy(body, r, 0.15) if op["noise"] % 5 == 3 else body
    return ("\r\n" if op["noise"] % 7 == 5 else "\n").join(lines) + "\n"


# ---------------------------------------------------------------- parsing
def tok(x):
    n, d = float(x).as_integer_ratio()
    return str(n) if d == 1 else "%d/%d" % (n, d)


def token(s):
    x = float(s)
    return s if x != x else "inf" if x == float("inf") else "-inf" if x == float("-inf") else tok(x)


def toks(words):
    return [token(w) for w in words]


def parse(path, load_doc):
    e = ext(path)
    with open(path) as f:
        data = f.read()
    r = {"from": ["0", "1"], "pre": [], "main": {"dims": [], "vals": []}, "out": []}
    lines = [l.split() for l in data.split("\n")]
    lines = [l for l in lines if l]
    if e == "spi1d":
        body = lines[lines.index(["{"]) + 1:lines.index(["}"])]
        head = {l[0]: l[1:] for l in lines[:lines.index(["{"])]}
        assert head["Version"] == ["1"] and head["Components"] == ["3"] and all(len(l) == 3 for l in body)
        assert lines[-1] == ["}"]
        r["from"] = toks(head["From"])
        r["main"] = {"dims": [int(head["Length"][0])], "vals": toks(sum(body, []))}
        assert len(body) == int(head["Length"][0])
    elif e == "spi3d":
        assert lines[0] == ["SPILUT", "1.0"] and lines[1] == ["3", "3"]
        a, b, c = (int(x) for x in lines[2])
        cells = {tuple(int(x) for x in l[:3]): l[3:] for l in lines[3:]}
        want = [(i, j, k) for i in range(a) for j in range(b) for k in range(c)]
        assert len(lines) == 3 + len(want) and sorted(cells) == want
        r["main"] = {"dims": [a, b, c], "vals": toks(sum((cells[p] for p in want), []))}
    elif e == "csp":
        assert lines[0] == ["CSPLUTV100"] and lines[1] in (["1D"], ["3D"])
        at = lines.index(["END", "METADATA"]) + 1
        keys, vals = [], []
        for c in range(3):
            n = int(lines[at][0])
            keys.append(toks(lines[at + 1]))
            vals.append(toks(lines[at + 2]))
            assert len(keys[c]) == n and len(vals[c]) == n
            at += 3
        r["from"] = [keys[0][0], keys[0][-1]]
        r["pre"] = [{"dims": [len(keys[0])], "keys": keys, "vals": [vals[c][k] for k in range(len(keys[0])) for c in range(3)]}]
        dims = [int(x) for x in lines[at]]
        body = lines[at + 1:]
        assert all(len(l) == 3 for l in body)
        if lines[1] == ["1D"]:
            assert len(dims) == 1 and len(body) == dims[0]
        else:
            a, b, c = dims
            assert len(body) == a * b * c
            body = [body[i + a * (j + b * k)] for i in range(a) for j in range(b) for k in range(c)]
        r["main"] = {"dims": dims, "vals": toks(sum(body, []))}
    elif e == "ctl":
        one = lambda n: re.search(r"const float %s = ([^;]*);" % n, data).group(1)
        if "cube" in data:
            m = re.search(r"const float cube\[(\d+)\]\[(\d+)\]\[(\d+)\]\[3\] =", data)
            dims = [int(x) for x in m.groups()]
            body = data[m.end():data.index(";", m.end())]
            nums = re.findall(r"[-+0-9.einfa]+", body)
            ends = [re.findall(r"[-+0-9.einfa]+", re.search(r"const float %s3d\[3\] = \{(.*)\};" % w, data).group(1)) for w in ("min", "max")]
            assert all(len(set(x)) == 1 and len(x) == 3 for x in ends)
            r["from"] = [token(x[0]) for x in ends]
            r["main"] = {"dims": dims, "vals": toks(nums)}
            cube = nested(body)
            assert len(cube) == dims[0] and all(len(x) == dims[1] and all(len(y) == dims[2] and all(len(z) == 3 for z in y) for y in x) for x in cube)
            use = "lookup3D_f(cube, min3d, max3d, r, g, b, r, g, b);"
            assert use in data
        else:
            r["from"] = [token(one("min1d")), token(one("max1d"))]
            cols = []
            for c, ch in enumerate("rgb"):
                cols.append(toks(re.search(r"const float lut%d\[\] = \{([^}]*)\};" % c, data).group(1).split(",")))
                assert "%s = lookup1D(lut%d, min1d, max1d, %s);" % (ch, c, ch) in data
            r["main"] = {"dims": [len(cols[0])], "vals": [cols[c][k] for k in range(len(cols[0])) for c in range(3)]}
        for ch in "rgb":
            assert "float %s = %sIn;" % (ch, ch) in data and "%sOut = %s;" % (ch, ch) in data
    else:
        doc = load_doc(path, 1 << 30)[0]
        kids = [k for k in doc["kids"] if k["tag"].endswith(("Range", "LUT1D", "LUT3D"))]
        assert len(kids) == len([k for k in doc["kids"] if k["tag"] not in ("Info", "Description")])
        seen = False
        for k in kids:
            name = k["tag"].split(":")[-1]
            if name == "Range":
                ve = {x["tag"]: token(x["toks"][0]) for x in k["kids"]}
                assert not seen and not r["pre"] and ve["minOutValue"] == "0" and ve["maxOutValue"] == "1"
                r["from"] = [ve["minInValue"], ve["maxInValue"]]
            else:
                arr = [x for x in k["kids"] if x["tag"] == "Array"][0]
                dims = [int(x) for x in arr["attrs"]["dim"].split()]
                t = {"dims": dims[:-1], "vals": toks(arr["toks"])}
                assert dims[-1] == 3
                if name == "LUT3D":
                    assert not seen
                    r["main"], seen = t, True
                else:
                    r["out" if seen else "pre"].append(t)
        r["doc"] = doc
    return r


def nested(t):
    return eval(re.sub(r"\s", "", t).replace("{", "[").replace("}", "]"), {"nan": 0, "inf": 0})


# ---------------------------------------------------------------- operations
def flags(method):
    return dict(inverse=method != "", inversesUseIndexMaps=method == "index", inversesUseHalfDomain=method == "half")


SCRIPTS = {}


def call_main(mod, args, script=""):
    """the main function, of the module or of the script in python/bin"""
    old = sys.argv
    sys.argv = ["tool"] + args
    main = mod.main
    if script:
        if script not in SCRIPTS:
            SCRIPTS[script] = runpy.run_path(os.path.join(REPO, "python", "bin", script), run_name=script)["main"]
        main = SCRIPTS[script]
    try:
        main()
    finally:
        sys.argv = old


def bare(op):
    """every second call leaves out the arguments that have their default values"""
    return zlib.crc32(json.dumps({k: v for k, v in op.items() if k != "ret"}).encode()) % 2 == 0


def read(world, op):
    kw = flags(op["inverse"])
    kw["interpolation"] = op["interp"]
    if bare(op) and op["inverse"] in ("", "index"):
        kw = {"inverse": True} if op["inverse"] else {}
        if op["interp"] != "linear":
            kw["interpolation"] = op["interp"]
    if op.get("nodes"):
        nodes = lf.Registry.read(op["path"], returnProcessNodes=True, **kw)
        if nodes is None:
            return None
        pl = clf.ProcessList()
        for n in nodes:
            pl.addProcess(n)
        return pl
    return lf.Registry.read(op["path"], **kw)


KINDS = {"1D": "--generate1d", "3D": "--generate3d", "1D3D1D": "--generate1d3d1d"}


def write(world, op, num):
    f = {"1D": lf.LUTDATAFORMAT_1D, "3D": lf.LUTDATAFORMAT_3D, "1D3D1D": lf.LUTDATAFORMAT_1D_3D_1D}[op["kind"]]
    sh = [[None if s[0] == "none" else s[0], float(num(s[1])), float(num(s[2]))] for s in (op["shin"], op["shout"])]
    lo, hi = float(num(op["min"])), float(num(op["max"]))
    sizes = [op["na"], op["n3"], op["nb"]]
    short = bare(op)
    if op["via"] != "main":
        names = ["lutDataFormat", "lutResolution1d", "lutResolution3d", "lutResolution1d3d1d", "inputMin", "inputMax", "shaperIn", "shaperOut"]
        args = [f, op["n1"], op["n3"], sizes, lo, hi, sh[0], sh[1]]
        usual = [lf.LUTDATAFORMAT_1D, 1024, 33, [1024, 33, 2], 0.0, 1.0, ["linear", 0.0, 1.0], ["linear", 0.0, 1.0]]
        # what the kind of LUT does not use
        idle = [False, op["kind"] != "1D", op["kind"] != "3D", op["kind"] != "1D3D1D"] + [op["kind"] == "1D3D1D"] * 2 + [op["kind"] != "1D3D1D"] * 2
        kw = {}
        if short:
            kw = {n: a for n, a, u, i in zip(names, args, usual, idle) if a != u and not i}
            args = []
        if op["via"] == "registry":
            lf.Registry.write(world.objs[op["id"]], op["path"], *args, **kw)
        else:
            toLut.convertCLFtoLUT(op["clf"], op["path"], None, *args, **kw)
        return
    args = ["-c", op["clf"], "-l", op["path"]] if short else ["--clf", op["clf"], "--lut", op["path"]]
    if not (short and op["kind"] == "1D"):
        args += [KINDS[op["kind"]]]
    if not (short and (op["n1"] == 1024 or op["kind"] != "1D")):
        args += ["--lutResolution1d", str(op["n1"])]
    for name, v, u in (("--inputMinValue", lo, 0), ("--inputMaxValue", hi, 1)):
        if not (short and v == u):
            args += [name, repr(v)]
    if op["kind"] == "1D3D1D":
        args += ["--lutResolution1d3d1d"] + [str(n) for n in sizes]
    elif not (short and (op["n3"] == 33 or op["kind"] == "1D")):
        args += ["--lutResolution3d", str(op["n3"])]
    for name, s in (("--shaperIn", sh[0]), ("--shaperOut", sh[1])):
        if s[0]:
            args += [name, s[0], repr(s[1]), repr(s[2])]
    call_main(toLut, args, "convertCLFtoLUT" if short else "")


def to_clf(op):
    short = bare(op)
    args = ["-l", op["path"], "-c", op["clf"]] if short else ["--lut", op["path"], "--clf", op["clf"]]
    if op["inverse"]:
        args += ["--inverse"]
    if op["inverse"] == "index":
        args += ["--inversesUseIndexMaps"]
    if op["inverse"] == "half":
        args += ["--inversesUseHalfDomain"]
    call_main(toClf, args, "convertLUTToCLF" if short else "")


def formats(e):
    return [f for f in lf.Registry.getFormats() if e.lower() in f.extensions()]


def caps(op):
    ask = {"read": "canRead", "write1D": "canWrite1D", "write3D": "canWrite3D", "write1D3D1D": "canWrite1D3D1D"}[op["cap"]]
    out = []
    for e in op["exts"]:
        a = any(getattr(f, ask)(e) for f in formats(e))
        b = any(f.isCapable(op["cap"], e) for f in formats(e))
        out.append(a if a == b else "isCapable and %s disagree" % ask)
    return out
