#!/usr/bin/env python3
"""catch.py [-a] [ID...]: runs the check of each planted bug's property (-a: every check) on a copy of
/repo with the bug, and prints whether it was caught."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(i, props, slots=2):
    top = tempfile.mkdtemp(prefix="catch-", dir="/tmp"); w = top + "/repo"
    try:
        shutil.copytree("/repo", w, symlinks=True)
        subprocess.check_call(["git", "-C", w, "apply", "%s/seeded/%s/patch.diff" % (VERIF, i)])
        out = []
        for p in props:
            t = time.time()
            ev = top + "/ev"
            r = subprocess.run([VERIF + "/bin/check", p], cwd=VERIF, env=dict(os.environ, CLF_REPO=w, CLF_EVIDENCE=ev, VERIF_SEED="1", VERIF_TIER="quick"),
                               capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append((p, r.returncode, time.time() - t, v[:1], [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]))
        return out
    finally:
        shutil.rmtree(top, ignore_errors=True)
if __name__ == "__main__":
    args = sys.argv[1:]; every = "-a" in args; args = [a for a in args if a != "-a"]
    ids = args or sorted(os.listdir(VERIF + "/seeded"))
    allp = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
    def job(i):
        p = json.load(open("%s/seeded/%s/meta.json" % (VERIF, i)))["property"]
        return run(i, allp if every else [p])
    book = os.path.join(VERIF, "tools", "caught.json")
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for i, out in zip(ids, ex.map(job, ids)):
            for p, rc, t, v, l in out:
                have = json.load(open(book)) if os.path.exists(book) else {}
                have.setdefault(i, {})[p] = "caught" if rc == 1 and v else "missed" if rc == 0 else "no answer (%d)" % rc
                with open(book, "w") as f:
                    json.dump(have, f, indent=1, sort_keys=True)
                    f.write("\n")
                print("%-12s %-4s %s %5.1fs %s %s" % (i, p, "CAUGHT" if rc == 1 and v else "missed rc=%d" % rc, t, v[0][:90] if v else "", l[0][:160] if l else ""), flush=True)
