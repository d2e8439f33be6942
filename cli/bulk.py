"""C04, second part: the tool's own debug and release builds, with their own stack, on very large and very
repetitive texts. A worker of the monitor cannot see what a real process does at the end of its stack or memory."""
import os, random, resource, subprocess, threading, time, json
from concurrent.futures import ThreadPoolExecutor
from common import *

LONG, FLAT, LIST, NEST = 200000, 30000, 4000, 300
MEMORY = 3 << 30
SECONDS = 60

# (before, repeated, between, after, how often)
SHAPES = [
    ("", ["$", "é", "?", "!", "@", "\\", "\u00a0", "\u0000", "🎉", "#", "&&", "~", "٣"], ["", " ", "\n"], [""], LONG),
    ("", ["end", ";", "1", ")", "(", "x", "\"s\"", "<>", "=", "model", "if", "'q'", "1.5e3", ".", ":=", "true", "]", "}", "annotation", "within"], [" ", "\n"], [""], 60000),
    ("", ["// c", "//", "// é model M"], ["\n", "\r\n", "\n\n"], ["", "\n", "\nmodel M end M;"], LONG),
    ("", ["/* c */", "/**/", "/*\n*/"], [" ", "\n", ""], ["", "model M end M;"], LONG),
    ("", ["\n", " ", "\t", "\r\n", "\r", "\x0c"], [""], ["", "model M end M;", "x"], LONG),
    ("/*", ["*", "/", "* ", "\n", "é"], ["", " "], ["*/", "", "*/ model M end M;"], LONG),
    ("model M \"", ["x", "\\\"", "\n", "\\\\", "é", "//"], ["", " "], ["\" end M;", ""], LONG),
    ("model '", ["x", "\\'", "\\\\", " "], [""], ["' end M;", "", "\n"], LONG),
    ("model ", ["a", "A_1"], [""], [" end M;", ""], LONG),
    ("model M Real x=", ["1", "9"], [""], [";end M;", "e5;end M;", ".;end M;", ""], LONG),
    ("within ", ["A"], ["."], [";", ""], FLAT),
    ("model M ", ["\"a\"", "\"\""], [" + ", "+\n"], [" end M;", ""], FLAT),
    ("", ["model M end M;", "package P = Q;", "type T = Real;", "function f end f;", "within ;", "type E = enumeration(a);", "model M end"], ["\n", " ", "\n\n\n"], [""], FLAT),
    ("model M\n", ["Real x;", "import A.B;", "extends A;", "public", "Real x annotation(A=1);", "replaceable model A=B;", "annotation(A=1);", "Real x \"d\" ;", "// c\nReal x;",
                   "model N end N;", "protected Real y;", "import A.{b,c};", "Real x[3](a=1)=2;", "Real x", ";"], ["\n", "", " "], ["end M;", "", "equation end M;"], FLAT),
    ("model M Real ", ["x", "x=1", "x \"d\"", "x[2]"], [",", ", ", ",\n"], [";end M;", ""], FLAT),
    ("model M\nequation\n", ["x=y;", "connect(a,b);", "f(x);", "if a then x=1; end if;", "for i in 1:2 loop x=1; end for;", "x=y;// c\n", "equation", "when a then x=1; end when;", "x=", "end if;",
                             "(a,b)=f(x);", "x=1 \"d\" annotation(A=1);"], ["\n", "", " "], ["end M;", "", "algorithm end M;"], FLAT),
    ("model M\nalgorithm\n", ["x:=y;", "break;", "return;", "f(x);", "while a loop x:=1; end while;", "(a,b):=f(x);", "algorithm", "x:=", "if a then x:=1; else x:=2; end if;"], ["\n", "", " "], ["end M;", "", "equation end M;"], FLAT),
    ("type E=enumeration(", ["x", "x \"d\"", "x annotation(A=1)"], [",", ",\n"], [");", ""], FLAT),
    ("type D=der(A,", ["x"], [",", ",\n"], [");", ""], FLAT),
    ("model M\nReal x=", ["a", "1.5", "f(x)", "(a)", "a[1]", "\"s\"", "{1}", "der(x)"], ["+", " - ", "*", "/", " or ", " and ", "\n+ ", " .* ", "==", "^"], [";end M;", ""], FLAT),
    ("model M\nReal x=[", ["a", "1", "-1"], [",", ";", ";\n"], ["];end M;", ""], FLAT),
    ("model M\nReal x=a[", ["1", ":", "1:2"], [",", ",\n"], ["];end M;", ""], FLAT),
    ("model M\nReal x(", ["a=1", "each a=1", "redeclare model A=B", "final a(b=1)"], [",", ",\n"], [");end M;", ""], FLAT),
    ("model M\nequation\nif a then\n", ["elseif a then\n", "elseif a then x=1;", "else\n", "x=1;\n"], [""], ["end if;end M;", ""], FLAT),
    ("model M\nequation\nwhen a then\n", ["elsewhen a then\n", "elsewhen a then x=1;"], [""], ["end when;end M;", ""], FLAT),
    ("model M\nReal x=if a then b ", ["elseif a then b ", "elseif a then\nb\n"], [""], ["else c;end M;", ""], FLAT),
    ("model M\nequation\nfor ", ["i in 1:2", "i"], [", ", ",\n"], [" loop end for;end M;", ""], FLAT),
    ("model M\nimport A.{", ["b"], [",", ",\n"], ["};end M;", ""], FLAT),
    ("model M\nequation\n(", ["a", "", "1"], [",", ",\n"], [")=f();end M;", ""], FLAT),
    ("model M\nequation\n", ["a", "a[1]"], ["."], ["=1;end M;", ""], FLAT),
    ("model M\nReal x=f(", ["a", "a=1", "function g(a=1)", "f(x)"], [",", ",\n"], [");end M;", ""], LIST),
    ("model M\nReal x={", ["a", "1", "{1}"], [",", ",\n"], ["};end M;", ""], LIST),
]
# (before, opening, core, closing, after)
NESTS = [
    ("model M\nReal x=", "(", "a", ")", ";end M;"), ("model M\nReal x=", "f(", "a", ")", ";end M;"), ("model M\nReal x=", "{", "a", "}", ";end M;"), ("model M\nReal x=", "[", "a", "]", ";end M;"),
    ("model M\nReal x=", "a[", "1", "]", ";end M;"), ("model M\nReal x", "(a", "", ")", ";end M;"), ("model M\nReal x=", "if a then b else ", "c", "", ";end M;"),
    ("model M\nReal x=", "(if a then\n", "c", " else d)", ";end M;"), ("", "model M\n", "", "end M;\n", ""), ("model M\nequation\n", "if a then\n", "", "end if;", "end M;"),
    ("model M\nequation\n", "for i in 1:2 loop\n", "x=1;", "end for;\n", "end M;"), ("model M\nalgorithm\n", "while a loop\n", "x:=1;", "end while;\n", "end M;"),
    ("model M\nequation\n", "when a then\n", "x=1;", "end when;\n", "end M;"), ("model M annotation", "(A", "", ")", ";end M;"), ("model M\nReal x=", "f(function g(a=", "1", "))", ";end M;"),
    ("model M\nReal x=f(a=", "b(c=", "1", ")", ");end M;"), ("model M\n", "Real x(redeclare model A=B(", "", ")", ";end M;"),
]


def make(rng, i):
    if i % 6 == 5:
        pre, a, core, b, post = NESTS[(i // 6) % len(NESTS)]
        n = rng.randint(NEST // 2, NEST)
        parts = [[pre, 1], [a, n], [core, 1], [b, n], [post, 1]]
        k = rng.random()
        if k < 0.2:
            parts[3][1] -= rng.randint(1, n)
        elif k < 0.3:
            parts[3][1] += rng.choice([1, n])
        elif k < 0.4:
            del parts[3:]
        elif k < 0.5:
            parts.insert(rng.randint(1, 4), [rng.choice(["$", ";", "end", "\"", "/*", "else", ")"]), 1])
    else:
        pre, units, seps, posts, n = SHAPES[(i - i // 6) % len(SHAPES)]
        u, s, p = rng.choice(units), rng.choice(seps), posts[0] if rng.random() < 0.7 else rng.choice(posts)
        n = rng.randint(n // 2, n)
        parts = [[pre, 1], [u + s, n - 1], [u, 1], [p, 1]]
        k = rng.random()
        if k < 0.15:
            cut = rng.randint(1, n - 2)
            parts[1:2] = [[u + s, cut], [rng.choice([" $ ", " ; ", " end ", " \" ", " /* ", " ' ", " ) ", " x ", " = ", "\n", " // c\n", " \u00e9 "]), 1], [u + s, n - 1 - cut]]
        elif k < 0.3:
            # two texts mixed
            v, w = rng.choice(units), rng.choice(seps)
            parts[1:2] = [[u + s + v + w, (n - 1) // 2]]
    return {"parts": parts, "tool": rng.choice(["debug", "debug", "release"]), "check": rng.random() < 0.3}


def text(case):
    return "".join(t * n for t, n in case["parts"])


def limited():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def judge(lab, case, t):
    d = lab.fresh()
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "bulk.mo")
    src = text(case).encode()
    with open(p, "wb") as f:
        f.write(src)
    t0 = time.time()
    env = {k: v for k, v in os.environ.items() if not k.startswith("RUST_")}
    with open(os.path.join(d, "out"), "w+b") as o:
        pr = subprocess.Popen([lab.tool[case["tool"]]] + (["--check"] if case["check"] else []) + [p], stdin=subprocess.DEVNULL, stdout=o, stderr=o, preexec_fn=limited, env=env)
        gone = threading.Timer(SECONDS, pr.kill)
        gone.start()
        _, status, use = os.wait4(pr.pid, 0)
        pr.returncode = os.waitstatus_to_exitcode(status)
        late = not gone.is_alive()
        gone.cancel()
        o.seek(0)
        out = o.read(4000).decode("utf-8", "replace")
    r = []
    rc = pr.returncode
    what = "%s build on %d bytes" % (case["tool"], len(src))
    if late:
        r.append("%s: not done after %d seconds" % (what, SECONDS))
    elif rc < 0:
        r.append("%s: killed by signal %d: %s" % (what, -rc, out[-300:]))
    elif rc not in (0, 1) or "panicked at" in out:
        r.append("%s: exit status %d: %s" % (what, rc, out[-300:]))
    elif rc == 1 and not out.strip():
        r.append("%s: neither a diagnostic nor a formatted text" % what)
    t.add("bulk_runs_" + case["tool"])
    t.add("bulk_bytes", len(src))
    t.add("bulk_accepted" if rc == 0 or "check failed" in out else "bulk_diagnosed")
    with t.lock:
        t.counts["bulk_largest_resident_kb"] = max(t.counts.get("bulk_largest_resident_kb", 0), use.ru_maxrss)
        t.counts["bulk_longest_cpu_ms"] = max(t.counts.get("bulk_longest_cpu_ms", 0), int(1000 * (use.ru_utime + use.ru_stime)))
    os.unlink(p)
    os.unlink(os.path.join(d, "out"))
    return r


def c04(lab):
    """Adds to the evidence the monitor has written."""
    t = Tally()
    bad = []
    stop = threading.Event()
    count = 480 if not lab.thorough else 4000
    limit = 300 if not lab.thorough else 800

    def one(i):
        if stop.is_set() or time.time() - lab.t0 > limit:
            return
        case = make(random.Random("bulk/%s/%s" % (lab.seed, i)), i)
        p = judge(lab, case, t)
        if p:
            # once more, with nothing beside it
            with again:
                p = judge(lab, case, t)
        with t.lock:
            t.evals += 1
            t.distinct.add(digest(case))
            if p:
                bad.append((case, p))
                stop.set()

    again = threading.Lock()
    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(one, range(count)))
    path = os.path.join(VERIF, "evidence", "C04.json")
    with open(path) as f:
        ev = json.load(f)
    cov = ev["coverage"]
    cov["evaluations"] += t.evals
    cov["distinct_nontrivial"] += len(t.distinct)
    cov["rule"] += "; and bulk texts: one or two units repeated up to %d times in a construct, or nested %d deep, with random damage, given to the tool's debug and release builds under a memory limit" % (LONG, NEST)
    cov["observed"].update(t.counts)
    ev["wall_s"] = round(ev["wall_s"] + time.time() - lab.t0, 2)
    ev["violations"] += len(bad)
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("C04: %d bulk runs, %s, %.1f s" % (t.evals, ", ".join("%s %d" % x for x in sorted(t.counts.items())), time.time() - lab.t0))
    if bad:
        case, problems = bad[0]
        os.makedirs(OUT, exist_ok=True)
        p = os.path.join(OUT, "C04-bulk-%s.replay" % lab.seed)
        with open(p, "w") as f:
            json.dump({"property": "C04", "problems": problems, "case": case}, f, indent=1)
        for x in problems[:5]:
            print(text_of(str(x)))
        print("VIOLATION property=C04 replay=%s" % p)
        return 1
    return 0
