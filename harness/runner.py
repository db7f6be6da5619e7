"""Runs one check: explore with TLC, drive the code, validate the traces."""
import fcntl
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLF_REPO", "/repo")
PYPY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
JARS = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
CLASSES = os.path.join(HERE, "build", "classes")
EVIDENCE = os.environ.get("CLF_EVIDENCE", os.path.join(HERE, "evidence"))
SPEC = os.path.join(HERE, "spec")
WORKERS = 6
SICK = 3  # the driver leaves after a program that took too much

import plan


class Failure(Exception):
    pass


def say(*a):
    print(*a)
    sys.stdout.flush()


def compile_java():
    """the Java side of RealArith and TextOps, compiled when missing or old"""
    os.makedirs(CLASSES, exist_ok=True)
    with open(os.path.join(HERE, "build", "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = sorted(os.path.join(HERE, "java", f) for f in os.listdir(os.path.join(HERE, "java")) if f.endswith(".java"))
        for f in src:
            out = os.path.join(CLASSES, os.path.basename(f)[:-5] + ".class")
            if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(f):
                subprocess.run(["javac", "-nowarn", "-cp", "%s/tla2tools.jar" % TLA, "-d", CLASSES] + src, check=True)
                break


def tlc(module, cfg, scratch, env=None, workers=8, timeout=0, extra=()):
    timeout = timeout or (500 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3600)
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g", "-Djava.io.tmpdir=" + scratch,
           "-cp", CLASSES + ":" + JARS,
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Failure("TLC did not finish %s" % module)
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return {"rc": p.returncode, "out": out, "ok": "No error has been found" in out,
            "states": int(m[-1][1]) if m else 0, "transitions": int(m[-1][0]) if m else 0}


# ---------------------------------------------------------------- explore
def explore(prop, tier, seed, scratch, stats):
    """theorems of the specification; returns the programs TLC wrote"""
    programs = []
    for module, cfg, mode in plan.EXPLORE.get(prop, []):
        out = os.path.join(scratch, "explored.%s.%s.ndjson" % (module, mode))
        env = {"CLF_MODE": mode, "CLF_OUT": out, "CLF_TIER": tier, "CLF_SEED": str(seed)}
        r = tlc(module + ".tla", cfg + ".cfg", scratch, env)
        if not r["ok"]:
            raise Failure("the specification fails its own theorems: %s %s\n%s" % (module, mode, r["out"][-6000:]))
        stats["states"] += r["states"]
        stats["transitions"] += r["transitions"]
        stats["explored"].append("%s/%s: %d states" % (module, mode, r["states"]))
        seen = set()
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    if line.strip() and line not in seen:
                        seen.add(line)
                        p = json.loads(line)
                        programs.append(json.loads(p) if isinstance(p, str) else p)
    return programs


# ---------------------------------------------------------------- drive
def child_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(LC_ALL="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/opt/vp/py2",
             CLF_REPO=REPO)
    return e


def drive_part(driver, programs, scratch, k):
    base = os.path.join(scratch, "part%d" % k)
    os.makedirs(base, exist_ok=True)
    src, dst, log = (os.path.join(base, n) for n in ("in", "out", "log"))
    with open(src, "w") as f:
        for p in programs:
            f.write(json.dumps(p) + "\n")
    work = os.path.join(base, "work")
    os.makedirs(work, exist_ok=True)
    return subprocess.Popen([PYPY, os.path.join(HERE, "harness", driver), src, dst, work], cwd=work, env=child_env(),
                            stdin=subprocess.DEVNULL, stdout=open(log, "w"), stderr=subprocess.STDOUT,
                            start_new_session=True), dst, log


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def lines(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(l) for l in f if l.endswith("\n")]


def drive(driver, programs, scratch, timeout, stats):
    """runs the programs; programs that end the process are marked"""
    out = [None] * len(programs)
    todo = list(range(len(programs)))
    rounds = 0
    deadline = time.time() + timeout
    while todo:
        rounds += 1
        parts = [todo[i::WORKERS] for i in range(WORKERS)]
        parts = [p for p in parts if p]
        running = [drive_part(driver, [programs[i] for i in part], scratch, rounds * 100 + k)
                   for k, part in enumerate(parts)]
        todo = []
        for part, (p, dst, log) in zip(parts, running):
            late = False
            try:
                p.wait(max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                late = True
            stop(p)
            done = lines(dst)
            for i, d in zip(part, done):
                if "sick" in d:
                    stats["crashed"].append((i, d["sick"]))
                else:
                    out[i] = d
            rest = part[len(done):]
            if rest and not done and not late and rounds == 1 and p.returncode != 0 and "DRIVER-READY" not in open(log).read():
                raise Failure("the code cannot be loaded:\n" + open(log).read()[-3000:])
            if rest and p.returncode == SICK and done:
                todo += rest if rounds < 5 else []
            elif rest:
                stats["crashed"].append((rest[0], "no answer in time" if late else "the process ended"))
                out[rest[0]] = None
                if rounds < 4:
                    todo += rest[1:]
        if time.time() > deadline:
            break
    return out


# ---------------------------------------------------------------- validate
def corrupt(programs, rng, want=6):
    """recorded programs with one observation falsified: all must be refused"""
    out = []
    order = list(range(len(programs)))
    rng.shuffle(order)
    for i in order:
        p = programs[i]
        cand = [k for k, o in enumerate(p["h"]) if o["op"] in plan.CORRUPT and plan.CORRUPT[o["op"]](json.loads(json.dumps(o)))]
        if not cand:
            continue
        q = json.loads(json.dumps(p))
        k = rng.choice(cand)
        plan.CORRUPT[q["h"][k]["op"]](q["h"][k])
        out.append((q, k + 1))
        if len(out) == want:
            break
    return out


def validate(trace, programs, scratch, stats, rng):
    """bad events as (program index, event number, text)"""
    bads = []
    alive = list(range(len(programs)))
    fakes = corrupt(programs, rng)
    while len(bads) < 3:
        path = os.path.join(scratch, "trace.ndjson")
        with open(path, "w") as f:
            for i in alive:
                f.write(json.dumps(programs[i]) + "\n")
            for q, _k in fakes:
                f.write(json.dumps(q) + "\n")
        r = tlc(trace + ".tla", trace + ".cfg", scratch, {"CLF_TRACE": path})
        found = []
        for m in re.finditer(r'^"BAD (\d+) (\d+) (.*)"\s*$', r["out"], re.M):
            found.append((int(m.group(1)) - 1, int(m.group(2)), m.group(3).replace('\\"', '"').replace("\\\\", "\\")))
        if r["ok"]:
            total = sum(len(programs[i]["h"]) + 1 for i in alive) + sum(len(q["h"]) + 1 for q, _ in fakes)
            if r["states"] != total:
                raise Failure("trace validation stopped early: %d states of %d" % (r["states"], total))
            stats["states"] += r["states"]
            stats["transitions"] += r["transitions"]
            refused = 0
            for n, (q, k) in enumerate(fakes):
                if any(h == len(alive) + n and l == k for h, l, _ in found):
                    refused += 1
            stats["falsified"] = len(fakes)
            stats["refused"] = refused
            if refused < len(fakes) and not any(h < len(alive) for h, _, _ in found) and not bads:
                missed = [(q, k) for n, (q, k) in enumerate(fakes) if not any(h == len(alive) + n and l == k for h, l, _ in found)]
                raise Failure("falsified traces were accepted: %s" % json.dumps(missed[0])[:3000])
            bads += [(alive[h], l, t) for h, l, t in found if h < len(alive)]
            return bads
        # an event the specification cannot even read: take that history out
        m = re.findall(r"/\\ h = (\d+)", r["out"])
        ml = re.findall(r"/\\ l = (\d+)", r["out"])
        if not m:
            raise Failure("trace validation failed:\n" + r["out"][-6000:])
        h, l = int(m[-1]) - 1, int(ml[-1])
        if h < len(alive):
            bads.append((alive[h], l, "event outside of the specification: " + r["out"][r["out"].find("Error:"):][:600]))
            del alive[h]
        else:
            del fakes[h - len(alive)]
    return bads


# ---------------------------------------------------------------- report
def known():
    out = []
    path = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d.get("status") == "open":
                        out.append(d)
    return out


def is_known(finding, prop, program, event, text):
    """an open finding names the operation, its input and what is observed"""
    if finding["property"] != prop or finding["text"] not in text:
        return False
    want = finding.get("ops", [])
    have = [json.dumps({k: v for k, v in o.items() if k != "ret"}, sort_keys=True) for o in program["h"][:event]]
    return all(any(w in h for h in have) for w in want)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="clfcheck.")
    try:
        return run(prop, tier, seed, scratch, t0, argv[1:])
    except Failure as e:
        say("ERROR: %s" % e)
        return 2
    finally:
        if os.environ.get("CLF_KEEP"):
            say("kept " + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, scratch, t0, args):
    compile_java()
    conf = plan.PROPERTIES[prop]
    stats = {"states": 0, "transitions": 0, "explored": [], "crashed": [], "falsified": 0, "refused": 0}
    if args[:1] == ["--replay"]:
        programs = [dict(h=[{k: v for k, v in o.items() if k != "ret"} for o in p["h"]])
                    for p in lines(args[1])]
        origin = ["replayed"] * len(programs)
    else:
        explored = explore(prop, tier, seed, scratch, stats)
        rng = random.Random(seed)
        cap = conf.get("cap", 600) if tier == "quick" else conf.get("cap_thorough", 20000)
        stats["explored_total"] = len(explored)
        if len(explored) > cap:
            explored = rng.sample(explored, cap)
        count = conf["quick"] if tier == "quick" else conf["thorough"]
        rand = plan.random_programs(prop, seed, count, tier)
        programs = explored + rand
        origin = ["explored"] * len(explored) + ["random"] * len(rand)
    t1 = time.time()
    done = drive(conf.get("driver", "driver.py"), programs, scratch, 240 if tier == "quick" else 3000, stats)
    t2 = time.time()
    good = [i for i in range(len(programs)) if done[i] is not None]
    bads = []
    chunk = 4000
    for k in range(0, len(good), chunk):
        part = good[k:k + chunk]
        try:
            bads += [(part[h], l, t) for h, l, t in
                     validate(conf.get("trace", "ClfTrace"), [done[i] for i in part], scratch, stats, random.Random(seed + k))]
        except Failure as e:
            if not stats["crashed"]:
                raise
            say("NOTE: %s" % str(e)[:2000])
    t3 = time.time()
    for i, what in stats["crashed"]:
        bads.append((i, 1, what))
        done[i] = programs[i]
    bads.sort()

    status = 0
    first = {}
    for i, l, text in bads:
        first.setdefault(i, (l, text))
    shown = {}
    hits = {}
    for i, (l, text) in sorted(first.items()):
        f = [k for k in known() if is_known(k, prop, done[i], l, text)]
        if f:
            hits.setdefault(f[0]["id"], f[0])
            continue
        shown.setdefault(text.split(":")[0] + text.split(":")[-1][:12], []).append((i, l, text))
    for k in known():
        if k["property"] == prop and k["id"] in hits:
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    violations = sum(len(v) for v in shown.values())
    if violations:
        status = 1
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        flat = sorted((min(v, key=lambda b: len(done[b[0]]["h"])) for v in shown.values()), key=lambda b: b[0])
        for n, (i, l, text) in enumerate(flat[:5]):
            path = os.path.join(rdir, "%s-%d.ndjson" % (prop, n + 1))
            with open(path, "w") as f:
                f.write(json.dumps(done[i]) + "\n")
            say("event %d of a program of %d (%s): %s" % (l, len(done[i]["h"]), origin[i], text))
            say("VIOLATION property=%s replay=%s" % (prop, path))
        say("%d of %d programs are not what the specification allows" % (violations, len(programs)))
    events = sum(len(done[i]["h"]) for i in good)
    samples = []
    for i in random.Random(seed).sample(good, min(3, len(good))):
        samples.append({"origin": origin[i], "program": clip(done[i])})
    coverage = {
        "states": stats["states"], "transitions": stats["transitions"],
        "traces_validated_against_impl": len(good), "events_validated": events,
        "explorations": stats["explored"],
        "programs_from_exploration": origin.count("explored"), "programs_random": origin.count("random"),
        "operations": ops_count(done, good),
        "falsified_traces": stats["falsified"], "falsified_traces_refused": stats["refused"],
        "seconds": {"explore": round(t1 - t0, 1), "drive": round(t2 - t1, 1), "validate": round(t3 - t2, 1)},
        "samples": samples,
    }
    if args[:1] != ["--replay"]:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
                       "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1),
                       "violations": violations}, f, indent=1)
            f.write("\n")
    say("%s %s: %d programs, %d events, %d spec states, %.1f s: %s" % (
        prop, tier, len(good), events, stats["states"], time.time() - t0, "VIOLATED" if status else "held"))
    return status


def ops_count(done, good):
    n = {}
    for i in good:
        for o in done[i]["h"]:
            n[o["op"]] = n.get(o["op"], 0) + 1
    return n


def clip(p):
    """a program short enough to read"""
    def cut(x):
        if isinstance(x, list):
            return [cut(y) for y in x[:24]] + (["... %d more" % (len(x) - 24)] if len(x) > 24 else [])
        if isinstance(x, dict):
            return {k: cut(v) for k, v in x.items()}
        return x
    return cut(p["h"][:10]) + (["... %d more operations" % (len(p["h"]) - 10)] if len(p["h"]) > 10 else [])
