"""What each check does: explorations, random programs, sizes."""
import gen
import sizes

ASSUMPTIONS = [
    "the code runs under PyPy with the repository's own Python 2 compatibility layer, as its tests do",
    "exact rational arithmetic in java/RealArith.java evaluates the specification's real numbers",
    "real-valued results may differ from the exact ones by a bound on 32-bit rounding that the specification carries",
]

# property -> [(module, cfg, mode)]
EXPLORE = {
    "C01": [("ClfTrees", "ClfTrees", "flat")],
    "C02": [("ClfTrees", "ClfTrees", "pixels")],
    "C03": [("ClfTrees", "ClfTrees", "extras")],
    "C14": [("ClfTrees", "ClfTrees", "forms"), ("ClfTrees", "ClfTrees", "bypass")],
    "C15": [("ClfTrees", "ClfTrees", "groups")],
    "C04": [("ClfCurves", "ClfCurves", "range")],
    "C06": [("ClfTables", "ClfTables", "matrix")],
    "C07": [("ClfTables", "ClfTables", "lut1d")],
    "C08": [("ClfTables", "ClfTables", "half")],
    "C09": [("ClfTables", "ClfTables", "lut3d")],
    "C10": [("ClfCurves", "ClfCurves", "cdl")],
    "C11": [("ClfCurves", "ClfCurves", "gamma")],
    "C12": [("ClfCurves", "ClfCurves", "log")],
    "C13": [("ClfCurves", "ClfCurves", "ec")],
    "C16": [("ClfFiles", "ClfFiles", "roundtrip")],
    "C17": [("ClfFiles", "ClfFiles", "codes")],
    "C18": [("ClfFiles", "ClfFiles", "gates"), ("ClfFiles", "ClfFiles", "history")],
    "C19": [("ClfFiles", "ClfFiles", "unknown")],
    "C20": [("ClfFiles", "ClfFiles", "history")],
    "C21": [("ClfLutFiles", "ClfLutFiles", "files")],
    "C22": [("ClfLutFiles", "ClfLutFiles", "baked")],
    "C23": [("ClfLutFiles", "ClfLutFiles", "inverse")],
    "C24": [("ClfLutFiles", "ClfLutFiles", "caps")],
    "C05": [("ClfAccess", "ClfAccess", "depths")],
    "C26": [("ClfSpaces", "ClfSpaces", "spaces")],
    "C27": [("ClfAccess", "ClfAccess", "prints")],
    "C28": [("ClfAccess", "ClfAccess", "setters")],
    "C25": [("ClfPool", "ClfPool", "schedules")],
    "C29": [("ClfTables", "ClfTables", "sampled")],
    "C30": [("ClfTables", "ClfTables", "maps")],
}

PROPERTIES = {
    "C01": {"quick": 250, "thorough": 6000},
    "C02": {"quick": 250, "thorough": 6000},
    "C03": {"quick": 300, "thorough": 6000},
    "C04": {"quick": 400, "thorough": 12000},
    "C05": {"quick": 250, "thorough": 6000, "cap": 1800},
    "C06": {"quick": 300, "thorough": 8000},
    "C07": {"quick": 300, "thorough": 8000},
    "C08": {"quick": 30, "thorough": 600, "cap": 36},
    "C09": {"quick": 250, "thorough": 6000},
    "C10": {"quick": 300, "thorough": 8000},
    "C11": {"quick": 250, "thorough": 6000},
    "C12": {"quick": 250, "thorough": 6000},
    "C13": {"quick": 300, "thorough": 8000},
    "C14": {"quick": 250, "thorough": 6000},
    "C15": {"quick": 200, "thorough": 5000},
    "C16": {"quick": 200, "thorough": 5000},
    "C17": {"quick": 150, "thorough": 2500},
    "C18": {"quick": 200, "thorough": 5000, "cap": 2400},
    "C19": {"quick": 250, "thorough": 6000, "cap": 800},
    "C20": {"quick": 200, "thorough": 5000, "cap": 1500},
    "C21": {"quick": 250, "thorough": 6000},
    "C22": {"quick": 150, "thorough": 2500, "cap": 220},
    "C23": {"quick": 160, "thorough": 3000},
    "C24": {"quick": 150, "thorough": 3000},
    "C25": {"quick": 200, "thorough": 4000, "cap": 200},
    "C26": {"quick": 150, "thorough": 2500, "cap": 1100},
    "C27": {"quick": 200, "thorough": 4000},
    "C28": {"quick": 200, "thorough": 6000, "cap": 2400, "cap_thorough": 48000},
    "C29": {"quick": 70, "thorough": 1500},
    "C30": {"quick": 300, "thorough": 8000},
}


# programs of uncommon size, next to the ordinary random ones
LARGE = {"C25": (3, 20), "C16": (6, 60), "C17": (6, 60), "C29": (8, 60), "C06": (24, 200)}


def random_programs(prop, seed, count, tier="quick"):
    large = LARGE.get(prop, (8, 120))[tier != "quick"]
    return list(gen.programs(prop, seed, count)) + list(sizes.programs(prop, seed, large))


# ---------------------------------------------------------------- falsified observations
def bad_process(o):
    r = o["ret"]
    if not r.get("ok") or not r.get("vals"):
        return False
    k = len(r["vals"]) // 2
    r["vals"][k] = "nan" if r["vals"][k] != "nan" else "0"
    return True


def bad_write(o):
    if not o["ret"].get("ok"):
        return False
    o["ret"]["doc"]["tag"] = "Unlisted"
    return True


def bad_get(o):
    if not o["ret"].get("ok"):
        return False
    o["ret"]["v"] = {"t": "s", "v": "falsified observation"}
    return True


def bad_convert(o):
    if not o["ret"].get("ok") or not o["ret"]["vals"]:
        return False
    o["ret"]["vals"][0] = "nan" if o["ret"]["vals"][0] != "nan" else "12345"
    return True


def bad_read(o):
    if not o["ret"].get("ok"):
        return False
    if len(o.get("path", "")) % 2:
        o["ret"]["files"] = ["stray.bak"]
    else:
        o["ret"] = {"ok": False, "err": "falsified", "same": True}
    return True


def bad_some(o):
    if not o["ret"].get("ok"):
        return False
    o["ret"]["some"], o["ret"]["same"] = not o["ret"]["some"], False
    return True


def bad_table(o):
    if not o["ret"].get("ok"):
        return False
    if not o["ret"]["some"]:
        return bad_some(o)
    t = o["ret"]["file"]["main"]["vals"]
    t[0 if len(t) > 2400 else len(t) // 2] = "12345/7"
    return True


def bad_caps(o):
    if not o["ret"].get("ok"):
        return False
    o["ret"]["v"][0] = not o["ret"]["v"][0]
    return True


def bad_print(o):
    if not o["ret"].get("ok") or not o["ret"]["lines"]:
        return False
    k = max(range(len(o["ret"]["lines"])), key=lambda i: len(o["ret"]["lines"][i]["n"]))
    if not o["ret"]["lines"][k]["n"]:
        return False
    o["ret"]["lines"] = [l for i, l in enumerate(o["ret"]["lines"]) if l != o["ret"]["lines"][k]]
    return True


def bad_filter(o):
    if o["fail"] or o["fault"] or not o["ret"].get("img"):
        return False
    v = o["ret"]["img"]["vals"]
    v[len(v) // 2] = "123456/7"
    return True


def bad_ocio(o):
    if not o["ret"].get("some"):
        return False
    for k in o["ret"]["doc"]["kids"]:
        if "name" in k["attrs"]:
            k["attrs"]["name"] = "falsified"
            return True
    return False


CORRUPT = {"ocio": bad_ocio, "print": bad_print, "filter": bad_filter, "lutread": bad_some, "lut2clf": bad_some, "lutwrite": bad_table, "caps": bad_caps, "process": bad_process, "write": bad_write, "get": bad_get, "convert": bad_convert, "read": bad_read}

NOTES = {}
