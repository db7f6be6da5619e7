"""Configurations for the OpenColorIO stand-in, and their conversion."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
import aces.convertOCIOtoCLF as toClf


def transform(t, num):
    if t["t"] == "none":
        return None
    d = dict(t)
    if t["t"] == "group":
        d["kids"] = [transform(k, num) for k in t["kids"]]
    if t["t"] == "matrix":
        d["m"] = [float(num(x)) for x in t["m"]]
        d["o"] = [float(num(x)) for x in t["o"]]
    if t["t"] == "log":
        d["base"] = int(t["base"])
    return d


def put(op, num):
    folder = os.path.dirname(op["path"])
    if folder:
        os.makedirs(folder, exist_ok=True)
    with open(op["path"], "w") as f:
        json.dump({"search": op["search"],
                   "spaces": [{"name": s["name"], "to": transform(s["to"], num), "from": transform(s["from"], num)} for s in op["spaces"]]}, f)


def run(op):
    if op["via"] == "function":
        toClf.convertOCIOtoCLF(op["config"], op["sources"], op["dests"], op["out"], op["maps"], op["half"])
        return
    argv = ["convertOCIOToCLF", "--config", op["config"], "-o", op["out"]]
    for s in op["sources"]:
        argv += ["-s", s]
    for s in op["dests"]:
        argv += ["-d", s]
    argv += ["--inversesUseIndexMaps"] if op["maps"] else []
    argv += ["--inversesUseHalfDomain"] if op["half"] else []
    old, sys.argv = sys.argv, argv
    try:
        toClf.main()
    finally:
        sys.argv = old
