"""Image files, filtering of them, and the order in which workers finish."""
import binascii
import multiprocessing
import multiprocessing.pool
import os
import sys
import time

import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
import OpenImageIO as oiio
import aces.clf as clf
import aces.filterImageWithCLF as fi

WAIT = 0.6
MAXIMA = {"8i": 255.0, "10i": 1023.0, "12i": 4095.0, "16i": 65535.0}
DTYPE = {"UINT8": np.uint8, "UINT16": np.uint16, "HALF": np.float16, "FLOAT": np.float32}


# ---------------------------------------------------------------- files
def meta_value(a, num):
    if a["type"] == "int":
        return int(a["v"])
    if a["type"] == "float":
        return float(num(a["v"]))
    if a["type"].startswith("float["):
        return [float(num(x)) for x in a["v"].split(",")]
    return a["v"]


def meta_text(t, v, tok):
    if t == "int":
        return str(int(v))
    if t == "float":
        return tok(v)
    if isinstance(v, (list, tuple)):
        return ",".join(tok(x) for x in v)
    return str(v)


def put(op, num):
    dt = DTYPE[op["type"]]
    vals = [num(t) for t in op["vals"]]
    data = np.array([float(x) for x in vals] if dt in (np.float16, np.float32) else vals, dtype=dt)
    oiio.save(op["path"], {"image": 1, "type": op["type"], "w": op["w"], "h": op["h"], "ch": op["ch"], "names": op["names"],
                           "meta": [[a["name"], a["type"], meta_value(a, num)] for a in op["meta"]],
                           "hex": binascii.hexlify(data.tobytes()).decode("ascii")})


def get(path, tok):
    d = oiio.load(path)
    if d is None:
        return None
    raw = binascii.unhexlify(d["hex"])
    dt = np.dtype(DTYPE[d["type"]])
    vals = np.frombuffer(raw[:len(raw) // dt.itemsize * dt.itemsize], dtype=dt)
    return {"type": d["type"] if d.get("given", d["type"]) == d["type"] else d["given"] + " as " + d["type"],
            "w": d["w"], "h": d["h"], "ch": d["ch"], "names": d["names"],
            "meta": [{"name": n, "type": t, "v": meta_text(t, v, tok)} for n, t, v in d["meta"]],
            "vals": [tok(x) for x in vals]}


# ---------------------------------------------------------------- schedules
class Ordered(clf.ProcessList):
    """a list whose rows finish in a given order, one of them failing"""
    def follow(self, firsts, order, fail, folder):
        self.vpFirsts, self.vpOrder, self.vpFail, self.vpFolder = firsts, order, fail, folder

    def process(self, values, *args, **kw):
        first = float(values[0])
        row = min(range(len(self.vpFirsts)), key=lambda i: abs(self.vpFirsts[i] - first)) + 1
        if row == self.vpFail:
            raise ValueError("row %d fails" % row)
        out = clf.ProcessList.process(self, values, *args, **kw)
        if self.vpOrder:
            mark = lambda r: os.path.join(self.vpFolder, "row%d" % r)
            before = self.vpOrder[:self.vpOrder.index(row)]
            end = time.time() + WAIT
            for r in before[::-1]:
                while not os.path.exists(mark(r)) and time.time() < end and r != self.vpFail:
                    time.sleep(0.002)
            if before:
                time.sleep(0.004)
            with open(mark(row), "w"):
                pass
        return out


def ordered(plist, op, folder):
    if not op["order"] and not op["fail"]:
        return plist
    img = oiio.load(op["in"])
    if img is None:
        return plist
    data = np.frombuffer(binascii.unhexlify(img["hex"]), dtype=DTYPE[img["type"]])
    bits = [v for n, t, v in img["meta"] if n == "oiio:BitsPerSample"]
    top = {"UINT8": 255.0, "UINT16": float(65535 if not bits else {10: 65535, 12: 65535}.get(bits[0], 65535))}.get(img["type"], 1.0)
    size = MAXIMA.get(plist.getInBitDepth(), 1.0)
    firsts = [float(data[r * img["w"] * img["ch"]]) / top * size for r in range(img["h"])]
    o = Ordered.__new__(Ordered)
    o.__dict__.update(plist.__dict__)
    o.follow(firsts, op["order"], op["fail"], folder)
    return o


POOLS = []


def recorded(make):
    def pool(*args, **kw):
        p = make(*args, **kw)
        POOLS.append(p)
        return p
    return pool


RealPool = multiprocessing.Pool
multiprocessing.Pool = recorded(RealPool)
fi.Pool = multiprocessing.Pool


def finish():
    while POOLS:
        p = POOLS.pop()
        p.terminate()
        p.join()


def run(world, op):
    oiio.VERSION = op["oiio"]
    oiio.FAULT = op["fault"]
    folder = os.path.abspath("rows")
    os.makedirs(folder, exist_ok=True)
    for f in os.listdir(folder):
        os.remove(os.path.join(folder, f))
    try:
        if op["id"] == "":
            argv = ["filterImageWithCLF", "-i", op["in"], "-o", op["out"], "--clf", op["clf"], "-m", str(op["workers"])]
            argv += ["--outputBitDepth", op["depth"]] if op["depth"] else []
            argv += ["--compression", op["compression"]] if op["compression"] else []
            argv += ["--quality", str(op["quality"])] if op["quality"] else []
            argv += ["-v"] if op["verbose"] else []
            old, sys.argv = sys.argv, argv
            try:
                fi.main()
            finally:
                sys.argv = old
        else:
            kw = dict(verbose=op["verbose"], multithreaded=op["workers"])
            if op["depth"]:
                kw["outBitDepth"] = op["depth"]
            if op["compression"]:
                kw["compression"] = op["compression"]
            if op["quality"]:
                kw["compressionQuality"] = op["quality"]
            fi.filterImageWithCLF(op["in"], op["out"], ordered(world.objs[op["id"]], op, folder), **kw)
    finally:
        oiio.FAULT = ""
        finish()
