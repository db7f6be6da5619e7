#!/usr/bin/env python3
"""Mutation analysis of the generated programs and of the specification.

  mutate.py prepare DIR PER_PROPERTY SEED      programs of all properties and what the unchanged tree does
  mutate.py run DIR COUNT SEED [FILE...]       COUNT random one-token changes: which ones the programs notice,
                                               and which of those the specification refuses
A change is noticed when any recorded answer differs.  Survivors are printed with their line.
"""
import ast, concurrent.futures, glob, io, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, tokenize
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF + "/harness")
import plan, runner
REPO = "/repo"
SOURCES = ["clf/%s.py" % f for f in "ASCCDL Array Comment Common ExtensionExposureContrast ExtensionGamma ExtensionGroup ExtensionLog ExtensionReference IndexMap Info LUT1D LUT3D Matrix ProcessList ProcessNode Range __init__".split()] + \
    ["lutFormats/%s.py" % f for f in "LutCLF LutCSP LutCTL LutFormat LutSPI Registry Sampling Common __init__".split()] + \
    ["filterImageWithCLF.py", "convertOCIOToCLF.py", "convertLUTToCLF.py", "convertCLFtoLUT.py", "clfinfo.py"]

def sources():
    root = REPO + "/python/aces"
    out = []
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), root)
            if f.endswith(".py") and "nitTest" not in p and "test" not in p.lower():
                out.append("aces/" + p)
    return sorted(out)

OPS = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"],
       "+=": ["-="], "%": []}
NAMES = {"and": "or", "or": "and", "True": "False", "False": "True", "min": "max", "max": "min", "not": "", "continue": "pass", "break": "pass"}

def mutants(path):
    """(line, column, old, new) of single-token changes, and removed statements"""
    src = open(REPO + "/python/" + path).read()
    lines = src.splitlines(True)
    out = []
    skip = set()
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("print", "#", "import", "from", "'''", '"""', "def ", "class ", "@")) or "add_option" in s or "parser." in s:
            skip.add(i + 1)
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except tokenize.TokenError:
        return []
    doc = False
    for k, t in enumerate(toks):
        line = t.start[0]
        if line in skip:
            continue
        prev = toks[k-1] if k else None
        if t.type == tokenize.OP and t.string in OPS:
            if t.string in "+-*" and (prev.type == tokenize.OP and prev.string not in ")]"):
                continue
            for n in OPS[t.string]:
                out.append((line, t.start[1], t.string, n))
        elif t.type == tokenize.NAME and t.string in NAMES:
            out.append((line, t.start[1], t.string, NAMES[t.string]))
        elif t.type == tokenize.NUMBER:
            v = t.string
            if v.startswith("0x"):
                continue
            try:
                x = ast.literal_eval(v)
            except Exception:
                continue
            out.append((line, t.start[1], v, str(x + 1) if isinstance(x, int) else repr(x * 1.25 + (0.5 if x == 0 else 0))))
            if isinstance(x, int) and x > 0:
                out.append((line, t.start[1], v, str(x - 1)))
        elif t.type == tokenize.STRING and len(t.string) > 3 and not t.string.startswith(('"""', "'''")) and t.start[0] == t.end[0] and prev.type != tokenize.INDENT:
            out.append((line, t.start[1], t.string, t.string[:-1] + "Q" + t.string[-1]))
    for i, l in enumerate(lines[:-1]):
        s = l.strip()
        if i + 1 in skip or not s or s.endswith((":", "\\", ",", "(", "[")) or s.startswith(("return", "else", "except", "raise", "pass", ")", "]")):
            continue
        if re.match(r"^[\w\.\[\]'\"]+\s*[-+*/]?=[^=]", s) or re.match(r"^[\w\.]+\(.*\)$", s):
            if l.count("(") == l.count(")") and l.count("[") == l.count("]"):
                out.append((i + 1, len(l) - len(l.lstrip()), s, "pass"))
        if s.startswith("return ") and l.count("(") == l.count(")"):
            pass
        m = re.match(r"^(el)?if (.*):$", s)
    for i, l in enumerate(lines):
        m = re.match(r"^(\s*(?:el)?if )\(?(.*?)\)?:\s*$", l)
        if m and i + 1 not in skip and l.count("(") == l.count(")"):
            c = l.index(m.group(1)) + len(m.group(1))
            body = l.rstrip()[c:-1]
            out.append((i + 1, c, body, "(" + body + ") and False"))
            out.append((i + 1, c, body, "(" + body + ") or True"))
    return out

def strip(p):
    return [o.get("ret") for o in p["h"]]

def prepare(d, per, seed):
    os.makedirs(d, exist_ok=True)
    progs = []
    for p in sorted(plan.PROPERTIES):
        n = per if p not in ("C08", "C17", "C29", "C23", "C26") else max(4, per // 3)
        progs += [(p, q) for q in plan.random_programs(p, seed, n)]
    random.Random(seed).shuffle(progs)
    with open(d + "/in.ndjson", "w") as f:
        for p, q in progs:
            f.write(json.dumps(dict(q, prop=p)) + "\n")
    t = time.time()
    drive(REPO, d + "/in.ndjson", d + "/clean.ndjson", 3000, None)
    t1 = time.time()
    drive(REPO, d + "/in.ndjson", d + "/clean2.ndjson", 3000, None)
    a, b = runner.lines(d + "/clean.ndjson"), runner.lines(d + "/clean2.ndjson")
    diff = [i for i in range(len(a)) if strip(a[i]) != strip(b[i])]
    print(len(progs), "programs", round(t1 - t, 1), "s; unstable", [(i, a[i]["prop"]) for i in diff][:20])
    json.dump(diff, open(d + "/unstable.json", "w"))

def drive(repo, src, dst, timeout, clean):
    """runs until the end or the first difference; returns the differing (index, program)s"""
    work = tempfile.mkdtemp(prefix="mutw-", dir="/tmp")
    env = dict(runner.child_env(), CLF_REPO=repo)
    if os.path.exists(dst):
        os.remove(dst)
    p = subprocess.Popen([runner.PYPY, VERIF + "/harness/driver.py", src, dst, work], cwd=work, env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    t0, seen, found, pos = time.time(), 0, [], 0
    why = ""
    try:
        while True:
            rc = p.poll()
            if clean is not None and os.path.exists(dst):
                with open(dst) as f:
                    f.seek(pos)
                    while True:
                        l = f.readline()
                        if not l.endswith("\n"):
                            break
                        pos += len(l.encode())
                        q = json.loads(l)
                        if clean[seen] is not None and strip(q) != clean[seen]:
                            found.append((seen, q))
                        seen += 1
                if len(found) >= 6:
                    return found, "differs"
            if rc is not None:
                if clean is not None and seen < len(clean):
                    return found, "differs" if found else "crash"
                return found, "differs" if found else "same"
            if time.time() - t0 > timeout:
                return found, "differs" if found else "slow"
            time.sleep(0.3)
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        shutil.rmtree(work, ignore_errors=True)

def one(d, clean, m):
    path, line, col, old, new = m
    top = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(REPO + "/python", top + "/python", symlinks=True, ignore=shutil.ignore_patterns("*.pyc", "__pycache__"))
        f = top + "/python/" + path
        lines = open(f).read().splitlines(True)
        l = lines[line - 1]
        if l[col:col + len(old)] != old:
            return m, [], "misplaced"
        lines[line - 1] = l[:col] + new + l[col + len(old):]
        open(f, "w").write("".join(lines))
        return (m,) + drive(top, d + "/in.ndjson", top + "/out.ndjson", 400, clean)
    finally:
        shutil.rmtree(top, ignore_errors=True)

def run(d, count, seed, files):
    clean = [strip(p) for p in runner.lines(d + "/clean.ndjson")]
    for i in json.load(open(d + "/unstable.json")):
        clean[i] = None
    every = []
    for s in sources():
        if files and not any(f in s for f in files):
            continue
        every += [(s,) + m for m in mutants(s)]
    done = set()
    if os.path.exists(d + "/results.ndjson"):
        done = {tuple(json.loads(l)["m"]) for l in open(d + "/results.ndjson")}
    every = [m for m in every if m not in done]
    random.Random(seed).shuffle(every)
    todo = every[:count]
    print(len(every), "possible changes;", len(todo), "tried", flush=True)
    out = open(d + "/results.ndjson", "a")
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        futs = [ex.submit(one, d, clean, m) for m in todo]
        for f in concurrent.futures.as_completed(futs):
            m, found, what = f.result()
            out.write(json.dumps({"m": m, "what": what, "found": [q for _, q in found]}) + "\n"); out.flush()
            if what in ("same", "misplaced"):
                print(what, m[0], m[1], repr(m[3]), "->", repr(m[4]), "|", open(REPO + "/python/" + m[0]).read().splitlines()[m[1] - 1].strip()[:110], flush=True)
    judge(d)

def judge(d):
    """which of the differing histories the specification refuses"""
    res = [json.loads(l) for l in open(d + "/results.ndjson")]
    todo = [r for r in res if r["found"] and "refused" not in r]
    scratch = tempfile.mkdtemp(prefix="mutj-", dir="/tmp")
    try:
        progs, owner = [], []
        for k, r in enumerate(todo):
            for q in r["found"]:
                progs.append(q); owner.append(k)
        stats = {"states": 0, "transitions": 0}
        hit = set()
        for c in range(0, len(progs), 1500):
            part = progs[c:c + 1500]
            bad = set()
            path = scratch + "/t.ndjson"
            alive = list(range(len(part)))
            for _ in range(200):
                with open(path, "w") as f:
                    for i in alive:
                        f.write(json.dumps(part[i]) + "\n")
                r = runner.tlc("ClfTrace.tla", "ClfTrace.cfg", scratch, {"CLF_TRACE": path}, timeout=3000)
                for m in re.finditer(r'^"BAD (\d+) ', r["out"], re.M):
                    bad.add(alive[int(m.group(1)) - 1])
                if r["ok"]:
                    break
                m = re.findall(r"/\\ h = (\d+)", r["out"])
                if not m:
                    print(r["out"][-3000:]); break
                i = alive[int(m[-1]) - 1]
                bad.add(i); alive = [j for j in alive if j not in bad]
            for i in bad:
                hit.add(owner[c + i])
        for k, r in enumerate(todo):
            r["refused"] = k in hit
            if k not in hit:
                m = r["m"]
                print("ALLOWED", m[0], m[1], repr(m[3]), "->", repr(m[4]), "|", open(REPO + "/python/" + m[0]).read().splitlines()[m[1] - 1].strip()[:110], flush=True)
        for r in res:
            if r.get("refused"):
                r["found"] = r["found"][:0]
        open(d + "/results.ndjson", "w").write("".join(json.dumps(r) + "\n" for r in res))
        n = lambda w: sum(1 for r in res if w(r))
        print("noticed and refused %d, noticed and allowed %d, crash or slow %d, same %d" % (
            n(lambda r: r.get("refused")), n(lambda r: r.get("refused") is False), n(lambda r: r["what"] in ("crash", "slow")), n(lambda r: r["what"] == "same")))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "prepare":
        prepare(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    elif sys.argv[1] == "judge":
        judge(sys.argv[2])
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
