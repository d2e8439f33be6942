#!/usr/bin/python3 -B
"""Development tool: small random changes of /repo's sources, each in a copy
(mounted over /repo in a private mount namespace), run against the existing
tests and then the checks.  mutate.py OUTDIR COUNT SEED [file ...]"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

OUT, COUNT, SEED = sys.argv[1], int(sys.argv[2]), sys.argv[3]
FILES = sys.argv[4:] or ["src/formatter/formatting.rs", "src/parser/parsing.rs", "src/parser/lexing.rs", "src/parser/tree.rs", "src/formatter/printing.rs", "src/parser/tokens.rs"]
CLI = FILES == ["src/main.rs"]
ORDER = {"formatting": ["C11", "C10", "C13", "C12", "C02", "C14", "C15", "C01", "C03", "C23", "C17", "C16", "C05", "C04", "C09"],
         "parsing": ["C05", "C06", "C09", "C23", "C07", "C04", "C01", "C03", "C11"],
         "lexing": ["C08", "C07", "C06", "C05", "C04", "C16", "C02"],
         "tree": ["C09", "C12", "C11", "C23", "C04", "C01"], "printing": ["C13", "C10", "C11", "C01"], "tokens": ["C08", "C06", "C05", "C09"],
         "main": ["C18", "C19", "C20", "C21", "C25", "C22"]}


def body_lines(path):
    """Line numbers of non-test code."""
    ls = open(path).read().split("\n")
    end = len(ls)
    for i, l in enumerate(ls):
        if "#[cfg(test)]" in l:
            end = i
            break
    return ls, [i for i in range(end) if ls[i].strip() and not ls[i].strip().startswith(("//", "use ", "#", "pub use", "mod "))]


def mutate(rng, path):
    ls, idx = body_lines(path)
    for _ in range(200):
        i = rng.choice(idx)
        l = ls[i]
        ops = []
        s = l.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "}", "const", "pub ", ")")) and s.count("(") == s.count(")"):
            ops.append(("delete", re.match(r"\s*", l).group(0) + ";"))
        if s.startswith("if ") and s.endswith("{") and "let " not in s:
            c = s[3:-1].strip()
            for n in ("!(%s)" % c, "true || (%s)" % c, "false && (%s)" % c):
                ops.append(("cond", l.replace(s, "if %s {" % n)))
        if s.startswith("} else if ") and "let " not in s:
            c = s[10:-1].strip()
            for n in ("!(%s)" % c, "false && (%s)" % c, "true || (%s)" % c):
                ops.append(("cond", l.replace(s, "} else if %s {" % n)))
        for a, b in [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" && ", " || "), (" || ", " && "), (" + 1", " + 2"), (" - 1", " - 0"), (" > 1", " > 0"), (" > 1", " > 2"),
                     ("Blank::Legal", "Blank::Illegal"), ("Blank::Illegal", "Blank::Legal"), ("Blank::Required", "Blank::Legal"), ("Blank::Legal", "Blank::Required"),
                     ("Marker::Indent", "Marker::Dedent"), ("Marker::Space", "Marker::Break"), ("Marker::Break", "Marker::Space"), ("Marker::Blank", "Marker::Break"), ("Marker::Break", "Marker::Blank"),
                     ("true", "false"), ("false", "true"), ("start.line", "end.line"), ("end.line", "start.line"), (".start()", ".end()"), ("any(", "all("),
                     ("is_multiline", "!is_multiline"), ("+= 1", "+= 2"), ("+= 1", "-= 1"), ("while ", "if "), (".is_empty()", ".len() == 1"), (">= ", "> "), ("<= ", "< ")]:
            if a in l:
                ks = [m.start() for m in re.finditer(re.escape(a), l)]
                k = rng.choice(ks)
                ops.append(("swap %s" % a.strip(), l[:k] + b + l[k + len(a):]))
        for m in re.finditer(r"(ModelicaToken|SyntaxKind)::(\w+)", l):
            other = rng.choice(re.findall(m.group(1) + r"::(\w+)", "\n".join(ls)))
            if other != m.group(2):
                ops.append(("kind", l[:m.start(2)] + other + l[m.end(2):]))
        m = re.search(r"\s\| (ModelicaToken|SyntaxKind)::\w+", l)
        if m:
            ops.append(("drop alternative", l[:m.start()] + l[m.end():]))
        m = re.search(r"(ModelicaToken|SyntaxKind)::\w+, ", l)
        if m and "[" in l or m and s.endswith(","):
            ops.append(("drop element", l[:m.start()] + l[m.end():]))
        m = re.search(r"(?<![\w.])(\d+)(?![\w.])", l)
        if m:
            ops.append(("number", l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
        m = re.search(r"'([^'\\])'", l)
        if m:
            ops.append(("char", l[:m.start()] + rng.choice(["'x'", "'_'", "'.'", "'e'", "'+'"]) + l[m.end():]))
        # exchange two statements
        if i + 1 in idx and s.endswith(";") and ls[i + 1].strip().endswith(";") and rng.random() < 0.4:
            ops.append(("exchange", ls[i + 1] + "\n" + ls[i] + "\0"))
        if ops:
            name, new = rng.choice(ops)
            out = ls[:]
            if new.endswith("\0"):
                out[i:i + 2] = new[:-1].split("\n")
            else:
                out[i] = new
            if out != ls:
                return i + 1, name, l.strip(), (new.rstrip("\0")).strip(), "\n".join(out)
    return None


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def worker_dir(k):
    return "/tmp/mut/w%d" % k


def prepare(k):
    d = worker_dir(k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(["cp", "-a", "/repo", d + "/repo"])
    for x in ("build", "evidence", "out"):
        os.makedirs(d + "/" + x)
    sh(["cp", "-a", "/verif/build/.", d + "/build/"])


def inside(k, script, timeout):
    d = worker_dir(k)
    pre = "".join("mount --bind %s/%s %s && " % (d, a, b) for a, b in (("repo", "/repo"), ("build", "/verif/build"), ("evidence", "/verif/evidence"), ("out", "/verif/out")))
    cmd = ["taskset", "-c", str(k % (os.cpu_count() or 1)), "unshare", "-m", "bash", "-c", pre + script]
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode, stdout = 124, "timeout"
        return R


TESTS = """cd /repo && export CARGO_TARGET_DIR=/repo/target CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; rm -rf target/debug/.fingerprint/mofmt-*; cargo test --offline --workspace 2>&1"""


def one(n, k, path, mut):
    line, name, old, new, text = mut
    d = worker_dir(k)
    p = os.path.join(d, "repo", path)
    orig = open(os.path.join("/repo", path)).read()
    res = {"n": n, "file": path, "line": line, "op": name, "old": old, "new": new}
    try:
        open(p, "w").write(text)
        r = inside(k, TESTS, 120)
        if "could not compile" in r.stdout or "error[" in r.stdout:
            res["outcome"] = "does not compile"
            return res
        if r.returncode:
            res["outcome"] = "killed by tests"
            return res
        stem = os.path.basename(path)[:-3]
        if not CLI:
            r = inside(k, "cd /verif && python3 -B -c 'import sys; sys.path.insert(0,\"cli\"); import common; common.build_monitor()'", 300)
            if r.returncode:
                res["outcome"] = "monitor does not build: " + r.stdout[-300:]
                return res
        caught = []
        for prop in ORDER[stem]:
            if CLI:
                r = inside(k, "cd /verif && ./check %s" % prop, 900)
            else:
                q = {"C06": 1200, "C07": 600, "C08": 1200, "C04": 1500, "C23": 4000}.get(prop, 6000)
                r = inside(k, "/verif/build/monitor/release/monitor run %s --seed 5 --cases %d --secs 40 --evidence /tmp/mut/w%d/e.json --replays /tmp/mut/w%d/out --scratch /tmp/mut/w%d/scr" % (prop, q, k, k, k), 200)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                caught.append(prop)
                res["detail"] = r.stdout[-400:]
                break
            if r.returncode not in (0, 1):
                res.setdefault("odd", []).append([prop, r.returncode, r.stdout[-200:]])
        res["outcome"] = "caught by " + ",".join(caught) if caught else "ESCAPED"
        return res
    finally:
        open(p, "w").write(orig)


def main():
    os.makedirs(OUT, exist_ok=True)
    for x in ("build", "evidence", "out"):
        os.makedirs("/verif/" + x, exist_ok=True)
    rng = random.Random(SEED)
    sizes = [len(body_lines(os.path.join("/repo", f))[1]) for f in FILES]
    W = os.cpu_count() or 4
    free = queue.Queue()
    for k in range(W):
        prepare(k)
        free.put(k)
    seen, muts = set(), []
    while len(muts) < COUNT:
        f = rng.choices(FILES, weights=[s ** 0.7 for s in sizes])[0]
        m = mutate(rng, os.path.join("/repo", f))
        if m and (f, m[0], m[3]) not in seen:
            seen.add((f, m[0], m[3]))
            muts.append((f, m))
    log = open(os.path.join(OUT, "results.jsonl"), "a")

    def job(a):
        n, (f, m) = a
        k = free.get()
        try:
            r = one(n, k, f, m)
        finally:
            free.put(k)
        log.write(json.dumps(r) + "\n")
        log.flush()
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(job, enumerate(muts)))


main()
