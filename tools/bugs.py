#!/usr/bin/python3 -B
"""Development tool: run each planted bug (or those named) against the check of
its property and print the outcome.  Copies of /repo are mounted over it in
private mount namespaces.  bugs.py [--all-checks] [--tier T] [id ...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
S = os.environ.get("SEEDS") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
a = sys.argv[1:]
ALL = "--all-checks" in a
names = [x for x in a if not x.startswith("--")] or sorted(os.listdir(S))
PROPS = ["C%02d" % i for i in range(1, 26)]
free = queue.Queue()
for k in range(4):
    free.put(k)


def one(n):
    k = free.get()
    d = "/tmp/bugs/w%d" % k
    try:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for x in ("build", "evidence", "out"):
            os.makedirs(d + "/" + x)
        subprocess.run(["cp", "-a", "/verif/build/.", d + "/build/"], check=True)
        r = subprocess.run(["git", "-C", d + "/repo", "apply", os.path.join(S, n, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return n, "does not apply: " + r.stderr
        with open(os.path.join(S, n, "meta.json")) as f:
            prop = json.load(f)["property"]
        pre = "".join("mount --bind %s/%s %s && " % (d, x, y) for x, y in (("repo", "/repo"), ("build", "/verif/build"), ("evidence", "/verif/evidence"), ("out", "/verif/out")))
        res = {}
        for p in (PROPS if ALL else [prop]):
            r = subprocess.run(["taskset", "-c", "%d,%d" % (2 * k, 2 * k + 1), "unshare", "-m", "bash", "-c", pre + "cd /verif && VERIF_SEED=1 timeout 900 ./check %s" % p], capture_output=True, text=True, errors="replace")
            hit = "VIOLATION property=%s " % p in r.stdout
            res[p] = "caught" if r.returncode == 1 and hit else "-" if r.returncode == 0 else "rc=%d" % r.returncode
        s = prop + " " + res[prop]
        if ALL:
            s += " | " + " ".join(p for p in PROPS if res[p] == "caught") + " " + " ".join(p + ":" + v for p, v in res.items() if v.startswith("rc"))
        return n, s
    finally:
        shutil.rmtree(d, ignore_errors=True)
        free.put(k)


with ThreadPoolExecutor(4) as ex:
    for n, s in ex.map(one, names):
        print("%-36s %s" % (n, s), flush=True)
