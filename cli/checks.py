"""Checks C18-C22 and C25: the command line tool observed from outside."""
import os, random, re, stat, json
from common import *

ODD = ["a b", "ünï", "日本", "x'y", "q\"r", "a$b", "-dash", "--check", "..x", "p%q", "tab\there", "*", "a\\b", "#1", "é́", "\udcff\udcfe", "long" * 20]
HAND = [b"", b"\n", b"\n\n\n", b"// only a comment", b"// only\n\n\n/* two */\n", b"within ;", b"within A.B;model M end M;", b"model M Real x;end M;\n",
        b"model M\n\nend M;\n", b"model M\n\nend M;", b"model M\r\n\r\nend M;\r\n", b"package P\n\n\n\nmodel M Real x; equation x=1; end M; end P;",
        "model \u00c4 end \u00c4;".encode(), "// \u00e4\u00f6\u00fc \U0001f389\nmodel M \"\u20ac\" end M;".encode(),
        "\ufeffmodel M end M;".encode(), b"type E=enumeration(a,b \"B\",c);", b"function f input Real x;output Real y;algorithm y:=x;end f;"]

TINY = [b"/* never closed", b"/*", b"/", b"\"", b"\"a", b"'", b"'a", b"$", b"\x00", b"x", b";", b"end", b"model", b"1", b"1.", b"//c\n/*", b"\n\n#", "\u00e9".encode(), b"final", b"within", b"within A", b"within ;;",
        b"model M", b"model M end M", b"end M;", b"(", b"\\", b" @ ", b"\t\"\n", b"//\n\n'", b"? ?", b"/*/", b"within ; $", b"\"\"", b"''"]


class Pool:
    def wrong(self, rng):
        return rng.choice(self.tiny if rng.random() < 0.3 else self.invalid)

    def __init__(self, lab, n):
        rng = random.Random("%s/pool/%s" % (lab.prop, lab.seed))
        src = lab.sources(lab.seed * 1000 + 17, n) + HAND
        for s in list(src[:n // 4]):
            src.append(s.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n"))
        bad = []
        for s in src[: n // 2] + HAND:
            t = bytearray(s)
            for _ in range(rng.randint(1, 4)):
                k = rng.randrange(5)
                i = rng.randrange(len(t) + 1)
                if k == 0:
                    del t[i:i + rng.randint(1, 12)]
                elif k == 1:
                    t[i:i] = rng.choice([b"\"", b"'", b"/*", b"end", b";", b"(", b")", b"@", b"$", b" model ", b"=", b"\xc3\xa9"])
                elif k == 2:
                    del t[i:]
                elif k == 3:
                    t[i:i] = bytes([rng.choice([0xff, 0xfe, 0xc3, 0x80, 0xed])])
                else:
                    t += rng.choice([b" end", b" x", b";", b"/*", b"\"", b" model M end M"])
            bad.append(bytes(t).replace(b"\r\n", b"\n").replace(b"\n", b"\r\n") if rng.random() < 0.15 else bytes(t))
        # no token, and wrong nevertheless
        for k in range(40):
            t = rng.choice([b"", b" ", b"// c\r\n", b"\r\n\r\n", b"\n\n\n", b"\xef\xbb\xbf", b"/* a */ ", b"\t"]) * rng.randint(0, 3)
            t += rng.choice([b"/* x\r\n", b"/*", b"/* a\nb *", b"\"abc\r\n", b"\"", b"'q\r\n", b"$\r\n", b"@ \n\n", b"#", b"?", b"\xc3\xa9", b"\r\n\\\r\n", b"!  "])
            bad.append(t + rng.choice([b"", b"", b"\r\n", b"   ", b"\r", b"// z"]))
        texts = list(dict.fromkeys(src + bad + [b"\xff\xfe", b"model M end M;\xff", b"model \xc3\x28 end M;", b"\x80", b"model M \"\xed\xa0\x80\" end M;"]))
        self.valid, self.invalid, self.bytes = [], [], []
        res = lab.oracle.many(texts)
        outs = lab.oracle.many([v + b"\n" for k, v in res if k == "text"])
        again = dict(zip([v for k, v in res if k == "text"], outs))
        for t, (k, v) in zip(texts, res):
            if k == "text" and again[v] == ("text", v):
                self.valid.append((t, v + b"\n"))
            elif k == "errors":
                self.invalid.append(t)
            elif k == "bytes":
                self.bytes.append(t)
        # hardly anything, and wrong nevertheless
        self.tiny = [t for t in TINY if lab.oracle.of(t)[0] == "errors"] or self.invalid[:1]
        if not any(t in HAND for t, _ in self.valid):
            raise Trouble("no simple text is accepted")
        if len(self.valid) < 10 or len(self.invalid) < 5:
            raise Trouble("not enough material: the library accepts %d and rejects %d of %d texts" % (len(self.valid), len(self.invalid), len(texts)))
        # large ones: whatever is done to a part of a file only, or only to its first bytes
        self.big, self.big_bad = [], []
        parts = [x for x, o in self.valid if b"within" not in x and not x.startswith(b"\xef") and x not in HAND]
        for size in [3000, 5000, 9000, 20000, 40000, 70000, 140000, 300000, 1200000]:
            b = b""
            while len(b) < size:
                b += rng.choice(parts) + b"\n"
            k, v = lab.oracle.of(b)
            if k != "text" or lab.oracle.of(v + b"\n") != ("text", v):
                continue
            self.big.append((b, v + b"\n"))
            for base in (b, v + b"\n"):
                for x in (b"// caf\xe9\n", b"/* \xff */\n", b"model M \"\xc3\" end M;\n", b"// \xe2\x82", b"/* \xed\xa0\x80 */", b"model Z x end Z;\n", b"/* c", b"model Z end Z;\n$\n", b"\"", b"end;\n"):
                    if lab.oracle.of(base + x)[0] in ("errors", "bytes"):
                        self.big_bad.append((base + x, lab.oracle.of(base + x)[0]))
        # formatted ones, and ones the tool would change
        self.hand = [x for x in self.valid if x[0] in HAND or len(x[0]) < 20]
        self.formatted = [o for _, o in self.valid]
        self.changing = [t for t, o in self.valid if t != o]


def tag_of(rng, used):
    while True:
        t = "k%04dz" % rng.randrange(10000)
        if t not in used:
            used.add(t)
            return t


def odd_name(rng, tag, ext=".mo"):
    if rng.random() < 0.4:
        return tag + ext
    if rng.random() < 0.5:
        # marks before and behind the name
        marks = lambda: "".join(rng.choice("!#$%&()*+,-.:;<=>?@[]^_`{|}~ \"'\\0189aZ") for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
        return (marks() + tag + marks() + ext).replace("{W}", "W")
    o = rng.choice(ODD)
    return rng.choice([o + tag, tag + o, tag + "." + o.strip("."), "." + tag]) + ext if o != "" else tag + ext


def entry(path, data, **kw):
    e = {"path": path, "data": b64(data)}
    e.update(kw)
    return e


def lines_with(seen, tag):
    return [l for l in (seen.out + "\n" + seen.err).split("\n") if tag in l]


def died(seen):
    if seen.rc == "timeout":
        return "the run does not end"
    if seen.rc < 0:
        return "the run is killed by signal %d" % -seen.rc
    if seen.rc == 101 or "panicked at" in seen.err:
        return "the run panics: %s" % seen.err.strip()[:300]
    return None


JUDGES = {}


def replayer(prop):
    """The judging function of a check whose functions are local to it."""
    def f(lab, case, t):
        lab.tier = "replay"
        {"C21": c21, "C25": c25}[prop](lab)
        return JUDGES[prop](lab, case, t)
    return f


WRITERS = ("open-trunc", "open-write", "truncate", "unlink", "rename", "create", "chmod", "utime")
META = ("mtime", "ctime", "size", "data")


# ---- C18 -------------------------------------------------------------------------

def make_batch(lab, pool, rng):
    used = set()
    n = rng.choice([1, 2, 2, 3, 4, 6, 10, 20]) if rng.random() < 0.96 else rng.choice([90, 130])
    share = rng.choice([0.0, 0.0, 0.2, 0.5, 0.8])
    entries, args, facts = [], [], {}
    dirs = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        t = tag_of(rng, used)
        d = t + "d"
        if dirs and rng.random() < 0.4:
            d = os.path.join(rng.choice(dirs), d)
        dirs.append(d)
        entries.append({"path": d, "type": "dir"})
    # files that share their names, the names of their directories or all they hold
    common = rng.choice(["package.mo", "t.mo", "x/t.mo", "a/b/package.mo", ".mo.mo"]) if rng.random() < 0.15 else None
    alike = rng.choice(pool.valid)[0] if rng.random() < 0.06 else None
    for k in range(n):
        tag = tag_of(rng, used)
        name = odd_name(rng, tag)
        home = rng.choice(dirs) if dirs and rng.random() < 0.5 else ""
        kind = "valid"
        if rng.random() < share:
            kind = rng.choice(["invalid", "invalid", "bytes", "suffix", "missing", "unreadable", "special"])
        if kind == "unreadable" and not lab.drop:
            kind = "invalid"
        if kind in ("suffix", "missing"):
            home = ""
        if common and kind not in ("suffix", "special"):
            name = os.path.join(tag, common)
            entries.append({"path": os.path.join(home, tag), "type": "dir"})
        path = os.path.join(home, name)
        large = rng.random() < 0.04
        if large and pool.big_bad and kind in ("invalid", "bytes"):
            data, k = rng.choice(pool.big_bad)
            kind = "invalid" if k == "errors" else "bytes"
            entries.append(entry(path, data))
        elif kind == "valid" and alike is not None:
            entries.append(entry(path, alike))
        elif kind == "valid":
            entries.append(entry(path, rng.choice(pool.big if large and pool.big else pool.valid if rng.random() < 0.85 else pool.hand)[0], mode=rng.choice([0o644, 0o600, 0o664])))
        elif kind == "invalid":
            entries.append(entry(path, pool.wrong(rng)))
        elif kind == "bytes":
            entries.append(entry(path, rng.choice(pool.bytes)))
        elif kind == "unreadable":
            entries.append(entry(path, rng.choice(pool.valid)[0], mode=rng.choice([0, 0o200, 0o300])))
        elif kind == "suffix":
            name = tag + rng.choice([".mo.bak", ".txt", "", ".MO", ".mos", ".moo", ".m", ".mo~", ".mo ", "mo", "."])
            path = name
            entries.append(entry(path, rng.choice(pool.valid + [(b"not modelica", b"")])[0]))
        elif kind == "special":
            # a name that leads nowhere
            path = os.path.join(home, tag + "s.mo")
            entries.append({"path": path, "type": "link", "target": "nowhere-" + "x"})
            kind = "missing"
        facts[tag] = kind
        if not home or rng.random() < 0.2:
            args.append(rng.choice(["", "", "./", "{W}/", ".//"]) + path)
    for d in dirs:
        if os.path.dirname(d) == "" or rng.random() < 0.2:
            args.append(d + rng.choice(["", "", "/"]))
    rng.shuffle(args)
    if rng.random() < 0.1 and args:
        args.insert(rng.randrange(len(args) + 1), rng.choice(args))
    if not args:
        return None
    if args[0].startswith("-"):
        args[0] = "./" + args[0]
    return {"entries": entries, "args": args, "facts": facts, "tool": rng.choice(["release", "debug"]), "nofile": 80}


def judge_batch(lab, case, t):
    s = perform(lab, case)
    r = []
    d = died(s)
    if d:
        r.append(d)
    facts = case["facts"]
    # tags of the files that are reached
    reached = {}
    for shown, rel in selected_spec(case):
        for tag in facts:
            if tag in shown:
                reached[tag] = (shown, rel)
    problems = 0
    free = {".": ()}
    for tag, (shown, rel) in sorted(reached.items()):
        kind = facts[tag]
        t.add("files_" + kind)
        if kind == "valid":
            e = next(e for e in case["entries"] if e["path"] == rel)
            want = lab.oracle.written(unb64(e["data"]))
            free[rel] = META
            if s.after.get(rel, {}).get("data") != want:
                r.append("%r (in order) is not formatted as it is alone: %r" % (shown, (s.after.get(rel) or {}).get("data", b"")[:200]))
            if not d and lines_with(s, tag):
                r.append("%r is in order but mentioned: %r" % (shown, lines_with(s, tag)[0]))
        else:
            problems += 1
            if kind == "invalid":
                ok = any(re.search(re.escape(tag) + r".*:\d+:\d+: .", l) for l in lines_with(s, tag))
            else:
                ok = bool(lines_with(s, tag))
            if not ok and not d:
                r.append("%r (%s) is not reported" % (shown, kind))
            wr = [e for e in s.events if e[1] in WRITERS and tag in e[3]]
            if wr:
                r.append("%r (%s) is opened for writing: %s" % (shown, kind, wr[0][1]))
    r += changes(s.before, s.after, free)
    if not d:
        if problems and s.rc != 1:
            r.append("exit status %s with %d problem files" % (s.rc, problems))
        if not problems and s.rc != 0:
            r.append("exit status %s without any problem: %s" % (s.rc, (s.out + s.err)[:300]))
    t.add("syscalls_observed", len(s.events))
    t.add("runs_with_problems" if problems else "runs_without_problems")
    t.saw("batch_shapes", ",".join(sorted(facts[g] for g in reached)))
    done(s)
    return r


def selected_spec(case):
    """Which files a batch names, from its description alone."""
    files = {e["path"]: e for e in case["entries"]}
    dirs = {e["path"] for e in case["entries"] if e.get("type") == "dir"}
    r = []
    for a in case["args"]:
        p = os.path.normpath(a.replace("{W}/", ""))
        if p in dirs:
            for q, e in files.items():
                if q.startswith(p + "/") and (e.get("type", "file") == "file" or e["type"] == "link" and q.endswith(".mo")):
                    r.append((q, q))
        else:
            r.append((p, p))
    return r


def c18(lab):
    pool = Pool(lab, 300 if not lab.thorough else 3000)
    return explore(lab, lambda rng, i: make_batch(lab, pool, rng), lambda l, c, t: judge_batch(l, c, t),
                   1600 if not lab.thorough else 40000, 200 if not lab.thorough else 700,
                   "batches of 1-20 files, each valid, with syntax errors, lexically broken, not UTF-8, with another suffix, missing, unreadable or a dangling link, "
                   "named directly or in directories, in random order, run by the release and debug builds; non-trivial: at least two files; distinct by names, contents and arguments",
                   nontrivial=lambda c: len(c["facts"]) > 1,
                   assumptions=["the library's formatted text is taken as the right content (its own rightness is decided by C01-C17)",
                                "unprivileged runs available: %s" % lab.drop])


# ---- C19 -------------------------------------------------------------------------

def shift(rng, f, part=1):
    """The same bytes, but for two of them exchanged: a space or line break at
    another place. Somewhere in the last 1/part of the text, mostly at its end."""
    for _ in range(20):
        i = f.find(rng.choice([b" = ", b"\n  ", b";\n", b"\n\n  ", b" end"]), len(f) - 1 - rng.randrange(len(f) // part + 1))
        if 0 <= i < len(f) - 2 and f[i:i + 1] != f[i + 1:i + 2]:
            return f[:i] + f[i + 1:i + 2] + f[i:i + 1] + f[i + 2:]
    return f[:-3] + b"\n; " if f.endswith(b";\n") else f + b" "


def near(rng, f):
    """A text close to a formatted one, and whether formatting must change it."""
    k = rng.randrange(18)
    if k >= 15:
        # a comment that formatting keeps or drops, between two of its bytes
        c = b"/*" + b"x" * rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 20]) + b"*/"
        i = f.find(rng.choice([b" ", b";", b"(", b" = ", b"\n", b")"]), rng.randrange(len(f)))
        i = i if i >= 0 else 0
        return f[:i] + rng.choice([b" " + c, b" " + c, c, c + b" "]) + f[i:]
    if k == 14:
        return shift(rng, f, rng.choice([1, 3]))
    if k == 0:
        return f[:-1]
    if k == 1:
        return f + b"\n"
    if k == 2:
        return f.replace(b"\n", b"\r\n")
    if k == 3:
        return f + b" "
    if k == 4:
        return b"\n" + f
    if k == 5:
        return b" " + f
    if k == 6:
        return f[:-1] + b"\r\n"
    if k == 7:
        i = f.find(b"\n", rng.randrange(len(f)))
        return f[:i] + b" " + f[i:] if i >= 0 else f + b"\n\n"
    if k == 8:
        i = f.find(b" ", rng.randrange(len(f)))
        return f[:i] + b" " + f[i:] if i >= 0 else b"\t" + f
    if k == 9:
        i = f.find(b"\n\n", rng.randrange(len(f)))
        return f[:i] + b"\n" + f[i:] if i >= 0 else f + b"\t"
    if k == 10:
        return f + b"// c"
    if k == 11:
        return f + f
    if k == 12:
        i = f.find(b" ", rng.randrange(len(f)))
        return f[:i] + b"\t" + f[i + 1:] if i >= 0 else f + b"\n"
    return f


def make_check(lab, pool, rng):
    used = set()
    entries, args, facts = [], [], {}
    n = rng.choice([1, 1, 2, 3, 5, 8]) if rng.random() < 0.97 else rng.choice([20, 100])
    clean = rng.random() < 0.3
    sub = rng.random() < 0.4
    for _ in range(n):
        tag = tag_of(rng, used)
        p = os.path.join(rng.choice(["sub", "sub/sub2"]), tag + ".mo") if sub and rng.random() < 0.6 else odd_name(rng, tag)
        if rng.random() < 0.12:
            p = os.path.join("sub", tag, rng.choice(["package.mo", "package.mo", "Icons.mo", "x/package.mo", "test.mo", "Examples/package.mo"]))
        k = rng.random()
        kw = {}
        if k < 0.05 and pool.big:
            data = rng.choice(pool.big)[1]
            if not clean and rng.random() < 0.7:
                data = shift(rng, data, rng.choice([1, 1, 4, 40]))
        elif clean or k < 0.3:
            data = rng.choice(pool.formatted)
        elif k < 0.75:
            data = near(rng, rng.choice(pool.formatted))
        elif k < 0.8:
            data = rng.choice(pool.valid)[0]
        elif k < 0.86:
            data = rng.choice(rng.choice(pool.hand))
        elif k < 0.93:
            data = pool.wrong(rng)
        elif k < 0.97:
            data = rng.choice(pool.bytes)
        else:
            data, p, kw = rng.choice(pool.formatted), tag + rng.choice([".txt", ".mo2", ""]), {}
        if rng.random() < 0.2:
            kw["mode"] = 0o444
        entries.append(entry(p, data, **kw))
        facts[tag] = p
        if not p.startswith("sub"):
            args.append(rng.choice(["", "./", "{W}/"]) + p)
    if any(p.startswith("sub") for p in facts.values()):
        args.append("sub")
        if rng.random() < 0.3:
            entries.append(entry("sub/readme.txt", b"model   M end M;"))
    if rng.random() < 0.1:
        entries.append({"path": "empty", "type": "dir"})
        args.append("empty")
    rng.shuffle(args)
    return {"entries": entries, "args": ["--check"] + args, "facts": facts, "tool": rng.choice(["release", "debug"]), "nofile": 80}


def judge_check(lab, case, t):
    s = perform(lab, case)
    r = []
    d = died(s)
    if d:
        r.append(d)
    r += [c + " in check mode" for c in changes(s.before, s.after)]
    w = [e for e in s.events if e[1] in WRITERS or e[1] == "write"]
    if w:
        r.append("check mode performs %s on %r" % (w[0][1], w[0][3]))
    data = {e["path"]: unb64(e.get("data", "")) for e in case["entries"]}
    all_pass = True
    want = lab.oracle.many([data[p] for p in case["facts"].values()])
    # the tool itself in formatting mode on a copy, as second opinion
    f = perform(lab, dict(case, args=case["args"][1:]) if not case["args"][1].startswith("-") else dict(case, args=["./" + case["args"][1]] + case["args"][2:]))
    for (tag, p), (kind, v) in zip(case["facts"].items(), want):
        ls = lines_with(s, tag)
        passed = any("passed" in l for l in ls)
        failed = any("failed" in l for l in ls)
        named_mo = p.endswith(".mo")
        if kind == "panic":
            t.skip("library panics")
            all_pass = None
            continue
        if kind == "text" and named_mo:
            same = v + b"\n" == data[p]
            if same != (f.after[p]["data"] == data[p]) and f.before[p]["mode"] & 0o200:
                r.append("%r: formatting %s it although the library's text %s" % (p, "keeps" if not same else "changes", "differs" if not same else "is the same"))
            t.add("files_unchanged_by_formatting" if same else "files_changed_by_formatting")
            if not d and (passed, failed) != (same, not same):
                r.append("%r would %s changed by formatting but is reported as %r" % (p, "not be" if same else "be", ls[:2]))
            if not same:
                all_pass = False
        else:
            t.add("files_with_problems")
            all_pass = False
            if not d and (passed or not ls):
                r.append("%r has problems but is reported as %r" % (p, ls[:2]))
    if not d and all_pass is not None:
        if all_pass != (s.rc == 0) or s.rc not in (0, 1):
            r.append("exit status %s although %s files pass" % (s.rc, "all" if all_pass else "not all"))
        t.add("runs_all_passed" if all_pass else "runs_not_all_passed")
    t.add("syscalls_observed", len(s.events))
    done(s)
    done(f)
    return r


def c19(lab):
    pool = Pool(lab, 300 if not lab.thorough else 3000)
    return explore(lab, lambda rng, i: make_check(lab, pool, rng), judge_check, 1500 if not lab.thorough else 30000, 200 if not lab.thorough else 700,
                   "check-mode runs over 1-8 files: formatted, formatted but for one small edit (final newline, line ends, one space, tab or line), unformatted, erroneous, "
                   "read-only, wrongly named; each compared with a formatting run on a copy; distinct by names, contents and arguments",
                   assumptions=["file system effects are observed through system call interposition and snapshots with content, times and identity"])


# ---- C20 -------------------------------------------------------------------------

LOOKALIKE = [".mo.bak", ".MO", ".Mo", ".mos", ".moo", ".mo~", ".mo.txt", ".m", ".o", ".mo ", "mo", ".txt", "", ".json", ".mo.mo.x", "_mo", ".mof"]


# names that mean something to somebody
USUAL = ["Resources", "Images", ".git", ".svn", ".hg", "node_modules", "target", "build", "vendor", "tmp", "test", "tests", "Test", "Examples", "examples", "Library", "Modelica", "src", "CVS", "__pycache__",
         ".cache", "old", "backup", "bin", "lost+found", ".Trash", "External", "Scripts", "Documentation", "help", "_temp", "~", "$HOME", "package", "doc", "out", "dist", ".mofmt", "...", "%TEMP%", "con", "nul"]
USUAL_FILES = ["package.mo", "Modelica.mo", "Icons.mo", "package.order.mo", "test.mo", "CON.mo", "_.mo", "1.mo", "~.mo", "main.mo", "README.mo", "..mo", "x.mos.mo", "#x#.mo", ".#x.mo", "x~.mo", "x.bak.mo", "x.orig.mo",
               "a.generated.mo", "a.min.mo", "mofmt.mo", "new\nline.mo"]


def make_tree(lab, pool, rng):
    used = set()
    entries, args = [], []
    dirs = [""]
    for _ in range(rng.choice([0, 1, 3, 6, 12])):
        base = rng.choice(dirs)
        if base.count("/") > 8 and rng.random() < 0.7:
            base = ""
        name = odd_name(rng, tag_of(rng, used), rng.choice(["", "", ".mo", ".d", ".mo"]))
        if rng.random() < 0.15:
            name = "." + name
        if base == "" and name.startswith("-"):
            name = "n" + name
        if rng.random() < 0.2:
            name = rng.choice(USUAL)
        d = os.path.join(base, name)
        if d in dirs:
            continue
        dirs.append(d)
        entries.append({"path": d, "type": "dir"})
    if rng.random() < 0.2:
        d = "deep"
        for k in range(rng.randint(5, 40)):
            d += "/d%d" % k
        dirs.append(d)
        entries.append({"path": d, "type": "dir"})
    files = []
    for _ in range(rng.choice([1, 3, 8, 20]) if rng.random() < 0.97 else 150):
        tag = tag_of(rng, used)
        yes = rng.random() < 0.6
        name = odd_name(rng, tag, ".mo" if yes else rng.choice(LOOKALIKE))
        d = rng.choice(dirs)
        k = rng.random()
        data = rng.choice(pool.changing) if k < 0.85 else rng.choice(pool.hand)[0] if k < 0.9 else pool.wrong(rng) if k < 0.95 else rng.choice(pool.formatted)
        p = os.path.join(d, name)
        if yes and rng.random() < 0.1:
            q = os.path.join(d, rng.choice(USUAL_FILES))
            p = p if any(f == q for f, _ in files) else q
        entries.append(entry(p, data, mode=rng.choice([0o644, 0o644, 0o600, 0o755, 0o666, 0o640, 0o777])))
        files.append((p, yes))
    if rng.random() < 0.25 and len(dirs) > 1:
        # the same name, contents and times in other directories
        for p, y in rng.sample(files, min(len(files), rng.choice([1, 1, 3]))):
            q = os.path.join(rng.choice(dirs), os.path.basename(p))
            if q not in {x["path"] for x in entries}:
                entries.append(dict(next(e for e in entries if e["path"] == p), path=q))
                files.append((q, y))
    yes = [p for p, y in files if y]
    if yes and rng.random() < 0.25:
        # a second name of the same file, in a directory
        entries.append({"path": os.path.join(rng.choice(dirs), tag_of(rng, used) + rng.choice([".mo", ".mo", ".txt"])), "type": "hard", "target": rng.choice(yes)})
    top = sorted({d.split("/")[0] for d in dirs if d})
    mode = rng.random()
    if mode < 0.35:
        args = [rng.choice([".", "./", "{W}", "{W}/", "../w", "./."])]
    elif mode < 0.8:
        cand = [d for d in dirs if d] + [p for p, y in files if y]
        for _ in range(rng.randint(1, 3)):
            if cand:
                c = rng.choice(cand)
                args.append(rng.choice(["", "./", "{W}/", ".//"]) + c + ("/" if c in dirs and rng.random() < 0.3 else ""))
    else:
        args = [p for p, y in files if y and rng.random() < 0.5] + top[:1]
    if yes and rng.random() < 0.2:
        # a link to a file or directory which is processed anyway
        args = args + ["{W}"]
        if rng.random() < 0.5 or not top:
            f = rng.choice(yes)
            entries.append({"path": tag_of(rng, used) + ".mo", "type": "link", "target": "./" + f})
        else:
            deepest = [d for d in dirs if d]
            d = rng.choice(deepest)
            entries.append({"path": tag_of(rng, used), "type": "link", "target": "./" + d})
    if rng.random() < 0.4:
        # links: to files and directories inside and outside of what is given;
        # the directories linked to hold no links, so there are no cycles
        away = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            d = os.path.join("away", tag_of(rng, used) + rng.choice(["", "", ".mo"]), rng.choice(["", "sub"])).rstrip("/")
            away.append(d)
            for _ in range(rng.choice([0, 1, 2])):
                ok = rng.random() < 0.7
                p = os.path.join(d, odd_name(rng, tag_of(rng, used), ".mo" if ok else rng.choice(LOOKALIKE)))
                entries.append(entry(p, rng.choice(pool.changing)))
                files.append((p, ok))
            entries.append({"path": d, "type": "dir"})
        for _ in range(rng.choice([1, 1, 2, 3])):
            home = rng.choice(dirs)
            if rng.random() < 0.5:
                target = rng.choice(files)[0]
                name = odd_name(rng, tag_of(rng, used), ".mo" if rng.random() < 0.7 else rng.choice(LOOKALIKE))
            else:
                target = rng.choice(away)
                name = odd_name(rng, tag_of(rng, used), rng.choice(["", "", ".mo"]))
            if home == "" and name.startswith("-"):
                name = "n" + name
            p = os.path.join(home, name)
            entries.append({"path": p, "type": "link", "target": os.path.relpath(target, home or ".")})
            if rng.random() < 0.15 and (name.endswith(".mo") or target in away):
                args.append(rng.choice(["./", "{W}/"]) + p)
    elif rng.random() < 0.08 and not any(e.get("type") == "link" for e in entries):
        # a link to a directory around it (the only link: 40 of them in a path are too many for the system)
        d = rng.choice(dirs)
        up = "/".join(d.split("/")[:rng.randint(0, d.count("/") + 1)])
        link = os.path.join(d, tag_of(rng, used))
        lap = len(os.fsencode(os.path.relpath(link, up or "."))) + 1
        rest = max(len(os.fsencode(os.path.relpath(e["path"], up or "."))) for e in entries)
        # ... and a path that is too long is no path
        if 41 * lap + rest < 3600 and os.path.relpath(link, up or ".").count("/") < 4:
            entries.append({"path": link, "type": "link", "target": os.path.relpath(up or ".", d or ".")})
    cwd = "."
    if rng.random() < 0.2 and len(dirs) > 1:
        cwd = rng.choice([d for d in dirs if d])
        args = [a if a.startswith("{W}") else "{W}/" + os.path.normpath(a) if not a.startswith("..") else "{W}" for a in args]
        if rng.random() < 0.3:
            args = ["."]
        elif rng.random() < 0.3:
            args = [".."]
    if not args:
        return None
    if args[0].startswith("-"):
        args[0] = "./" + args[0]
    return {"entries": entries, "args": args, "cwd": cwd, "tool": "release", "nofile": 80}


def judge_tree(lab, case, t):
    s = perform(lab, case)
    r = []
    d = died(s)
    if d:
        r.append(d)
    chosen = [rel for _, rel in selected(s.w, s.args, case.get("cwd", "."))] if not r else []
    inos = {}
    for p, i in s.before.items():
        inos.setdefault(i["ino"], []).append(p)
    free = {}
    bad_files = 0
    for rel in chosen:
        b = s.before.get(rel)
        if b is None or b["data"] is None:
            continue
        want = lab.oracle.written(b["data"])
        if want is Ellipsis:
            t.skip("library panics")
            want = None
        if want is None:
            bad_files += 1
            continue
        for q in inos[b["ino"]]:
            free[q] = META
        t.add("files_selected")
        if s.after.get(rel, {}).get("data") != want and not d:
            r.append("%r is below the given paths but is not formatted" % rel)
    if not d:
        r += changes(s.before, s.after, free)
        if (s.rc != 0) != (bad_files > 0):
            r.append("exit status %s with %d faulty files: %s" % (s.rc, bad_files, (s.out + s.err)[:200]))
    t.add("files_present", sum(1 for x in s.before.values() if x["kind"] == stat.S_IFREG))
    t.add("directories_present", sum(1 for x in s.before.values() if x["kind"] == stat.S_IFDIR))
    t.add("links_present", sum(1 for x in s.before.values() if x["kind"] == stat.S_IFLNK or x["nlink"] > 1 and x["kind"] == stat.S_IFREG))
    t.saw("tree_shapes", (len(s.before), max(p.count("/") for p in s.before), len(chosen)))
    done(s)
    return r


def c20(lab):
    pool = Pool(lab, 120 if not lab.thorough else 1000)
    return explore(lab, lambda rng, i: make_tree(lab, pool, rng), judge_tree, 1800 if not lab.thorough else 50000, 200 if not lab.thorough else 700,
                   "random directory trees (depth up to 40, hidden, unicode, non-UTF-8 and odd names, look-alike suffixes, directories named *.mo, hard links, symbolic links to files and directories inside and outside of what is given, "
                   "different permissions) with random arguments and working directories; non-trivial: more than two entries; distinct by tree and arguments",
                   nontrivial=lambda c: len(c["entries"]) > 2,
                   assumptions=["files named exactly '.mo', FIFOs, dangling links and more than one cycle of links are not generated"])


# ---- C21 -------------------------------------------------------------------------

def c21(lab):
    pool = Pool(lab, 600 if not lab.thorough else 8000)
    rng = random.Random("C21/%s" % lab.seed)
    # larger files
    big = []
    for _ in range(6 if not lab.thorough else 40):
        parts = [rng.choice(pool.valid)[0] for _ in range(rng.choice([30, 150, 600]))]
        parts = [p for p in parts if b"within" not in p]
        big.append(b"\n".join(parts) + b"\n")
    for t, (k, v) in zip(big, lab.oracle.many(big)):
        if k == "text":
            pool.valid.append((t, v + b"\n"))
    bigs = [t for t, _ in pool.valid if len(t) > 30000]
    # megabytes, with and without something behind the last class
    pieces = [o for _, o in pool.valid if b"within" not in o and len(o) < 60000 and o.endswith(b";\n")]
    huge = []
    for k in range(6 if not lab.thorough else 60) if lab.tier != "replay" else []:
        b, want = b"", rng.choice([1.2e6, 2.3e6, 4.6e6])
        while len(b) < want:
            x = rng.choice(pieces)
            b += x * rng.choice([1, 1, 40])
        b += rng.choice([b"", b"// the end", b"\n\n/* the end\n of it */\n", b"// \xe2\x82\xac\n// x\n"])
        if k % 2:
            b = rng.choice([b"// first\n\n", b"", b"within ;\n"]) + b
        if lab.oracle.of(b)[0] == "text":
            huge.append(b)

    def make(rng, i):
        used = set()
        n = rng.choice([1, 3, 10, 40])
        last = huge[i // 37] if i % 37 == 20 and i // 37 < len(huge) else None
        if last is not None:
            n = 2
        entries, args = [], []
        where = rng.choice(["", "", "d", "d/ü x", "d.mo"])
        if where:
            entries.append({"path": where, "type": "dir"})
        for k in range(n):
            p = os.path.join(where, odd_name(rng, tag_of(rng, used)))
            if rng.random() < 0.1:
                q = os.path.join(rng.choice([where, tag_of(rng, used), "P/Examples"]), rng.choice(["package.mo", "package.mo"] + USUAL_FILES))
                p = p if any(e["path"] == q for e in entries) else q
            data = rng.choice(pool.hand if rng.random() < 0.1 else pool.valid)[0] if not (bigs and rng.random() < 0.03) else rng.choice(bigs)
            if last is not None and k:
                data = last
            entries.append(entry(p, data))
            if rng.random() < 0.06:
                # by another name
                q = os.path.join(rng.choice(["", where]), tag_of(rng, used) + ".mo")
                entries.append({"path": q, "type": "link", "target": "{W}/" + p if rng.random() < 0.3 else os.path.relpath(p, os.path.dirname(q) or ".")})
                p = q
            args.append(rng.choice(["./", "{W}/", "./x/../", ".//"]) + p)
        if where and rng.random() < 0.5:
            args = [where] + [e["path"] for e in entries if "data" in e and not e["path"].startswith(where + "/")]
        entries.append({"path": "x", "type": "dir"})
        rng.shuffle(args)
        env = None
        if rng.random() < 0.3:
            env = rng.choice([{"LANG": "C", "LC_ALL": "C"}, {"LC_ALL": "de_DE.UTF-8"}, {"TERM": "dumb", "NO_COLOR": "1"}, {"RUST_BACKTRACE": "1"},
                              {"TZ": "Asia/Tokyo", "COLUMNS": "20"}, {"HOME": "/nonexistent"}, {"RUST_MIN_STACK": "8000000"}, {"MOFMT_CHECK": "1", "INDENT": "4"}])
        return {"entries": entries, "args": args, **({"env": env} if env else {}), "times": rng.choice([1, 1, 2, 3]) if last is None else 1, "nofile": rng.choice([30, 80])}

    def judge(lab, case, t):
        r = []
        want = {e["path"]: lab.oracle.written(unb64(e["data"])) for e in case["entries"] if "data" in e}
        for tool in ("release", "debug"):
            c = dict(case, tool=tool)
            for k in range(case["times"]):
                s = perform(lab, c)
                d = died(s)
                if d:
                    r.append("%s build: %s" % (tool, d))
                if s.rc != 0 and not d:
                    r.append("%s build: exit status %s for accepted files: %s" % (tool, s.rc, (s.out + s.err)[:200]))
                for p, w in want.items():
                    got = s.after.get(p, {}).get("data")
                    if got != w and not d:
                        r.append("%s build%s: %r holds %s, the library's text and a newline are %s" % (tool, " run again" if k else "", p, tail(got), tail(w)))
                t.add("files_written", len(want))
                t.add("bytes_compared", sum(len(w) for w in want.values()))
                t.add("runs_" + tool)
                if k:
                    t.add("runs_on_own_output")
                # again, on what the run before has written
                c = dict(c, entries=[dict(e, data=b64(s.after[e["path"]]["data"])) if "data" in e and e["path"] in s.after else e for e in c["entries"]])
                done(s)
                if r:
                    return r
        return r

    JUDGES["C21"] = judge
    if lab.tier == "replay":
        return 0
    return explore(lab, make, judge, 350 if not lab.thorough else 10000, 200 if not lab.thorough else 700,
                   "batches of 1-40 accepted files of 0 to 5 million bytes under odd names, path spellings, environments and repetitions, written by the release and the debug build "
                   "and compared byte for byte with the library called in a third build; distinct by names, contents and arguments",
                   assumptions=["files on which the library's text is not stable are left out here (C03 decides that)"])


def tail(b):
    return "%d bytes ending in %r" % (len(b), b[-40:]) if b is not None else "nothing"


# ---- C25 -------------------------------------------------------------------------

def c25(lab):
    pool = Pool(lab, 60 if not lab.thorough else 300)
    with open("/repo/Cargo.toml") as f:
        version = re.search(r'(?m)^version\s*=\s*"(.*)"', f.read()).group(1)
    HELPS, VERS = ["-h", "--help"], ["-v", "--version"]
    UNKNOWN = ["-x", "--chec", "--Check", "--check=1", "-check", "--", "-", "---check", "-c", "--fix", "--write", "-hv", "-V", "-H", "--HELP", "--version=1", "-ü",
               "--checks", "--helpx", "-\udcff", "--dry-run", "-i", "-0", "-.mo", "-file.mo", "--help ", "- h"]
    BEHIND = HELPS + VERS + UNKNOWN + ["--check"]

    def make(rng, i):
        used = set()
        entries, tags = [], []
        for _ in range(rng.choice([1, 1, 2, 4])):
            tag = tag_of(rng, used)
            p = os.path.join(rng.choice(["", "d"]), tag + ".mo")
            entries.append(entry(p, rng.choice(pool.changing)))
            tags.append(p)
        if rng.random() < 0.2:
            entries.append(entry(rng.choice(["-file.mo", "--check", "-h", "-.mo"]), rng.choice(pool.changing)))
        files = rng.sample(tags, rng.randint(0, len(tags)))
        if rng.random() < 0.3:
            files.append(".")
        kind = ["help", "version", "none", "check-alone", "unknown", "behind", "behind-check"][i % 7]
        extra = [rng.choice(BEHIND) for _ in range(rng.choice([0, 0, 0, 1]))]
        mixed = files + extra
        rng.shuffle(mixed)
        if kind == "help":
            args = [rng.choice(HELPS)] + mixed
        elif kind == "version":
            args = [rng.choice(VERS)] + mixed
        elif kind == "none":
            args = []
        elif kind == "check-alone":
            args = ["--check"]
        elif kind == "unknown":
            args = [UNKNOWN[(i // 7) % len(UNKNOWN)] if rng.random() < 0.8 else "-" + "".join(rng.choice("abc-=./x ü") for _ in range(rng.randint(1, 6)))] + mixed
            if args[0] in HELPS + VERS + ["--check"]:
                return None
        else:
            entries = [e for e in entries if not e["path"].startswith("-")]
            first = rng.choice(tags)
            word = BEHIND[(i // 7) % len(BEHIND)]
            args = (["--check"] if kind == "behind-check" else []) + [first]
            rest = [f for f in files if f != first and f != "."] + [word]
            rng.shuffle(rest)
            args += rest
            if kind == "behind-check" and rng.random() < 0.3:
                # the option word first among the paths of check mode
                args = ["--check", word, first]
        return {"entries": entries, "args": args, "kind": kind, "tool": rng.choice(["release", "debug"])}

    def judge(lab, case, t):
        s = perform(lab, case)
        r = []
        d = died(s)
        if d:
            r.append(d)
        kind = case["kind"]
        t.add("runs_" + kind)
        t.saw("argument_vectors", " ".join(case["args"][:1]))
        if kind.startswith("behind"):
            # all words behind the first path are paths
            words = [a for a in case["args"][1:] if a.startswith("-")] if kind == "behind" else [a for a in case["args"][1:] if a.startswith("-")]
            data = {e["path"]: unb64(e["data"]) for e in case["entries"] if "data" in e}
            for w in words:
                if not any(w in l and re.search("(?i)error|not |cannot|no such", l) for l in (lossy(x) for x in s.err.split("\n"))) and not any(lossy(w) in lossy(l) for l in s.err.split("\n")):
                    r.append("%r behind a path is not reported: %r" % (w, (s.out + s.err)[:200]))
            if s.rc != 1:
                r.append("exit status %s with a path %r that does not exist" % (s.rc, words))
            given = [a for a in case["args"] if a in data]
            free = {}
            for p in given:
                if kind == "behind":
                    free[p] = META
                    if s.after.get(p, {}).get("data") != lab.oracle.written(data[p]) and not d:
                        r.append("%r is not formatted beside the odd path" % p)
                elif not any(os.path.basename(p) in l and "failed" in l for l in s.out.split("\n")):
                    r.append("%r is not checked beside the odd path" % p)
            r += changes(s.before, s.after, free)
            if re.search(r"Usage:", s.out):
                r.append("help printed for an option behind a path")
        else:
            r += changes(s.before, s.after)
            if s.events:
                r.append("%s on %r in a run that must not touch files" % (s.events[0][1], s.events[0][3]))
            out, err = s.out.strip(), s.err.strip()
            if kind in ("help", "version"):
                if s.rc != 0:
                    r.append("exit status %s for %s" % (s.rc, kind))
                if err:
                    r.append("%s writes to standard error: %r" % (kind, err[:100]))
                missing = [x for x in ["Usage", "--check"] + HELPS + VERS if x not in out]
                if kind == "help" and missing:
                    r.append("help does not mention %s: %r" % (missing, out[:100]))
                if kind == "version" and not re.search(r"(?<![\d.])%s(?![\d.])" % re.escape(version), out):
                    r.append("version does not print %r: %r" % (version, out[:100]))
                if kind == "version" and "Usage" in out:
                    r.append("version prints the help")
            else:
                if s.rc != 1:
                    r.append("exit status %s for a usage error" % s.rc)
                if out:
                    r.append("usage error writes to standard output: %r" % out[:100])
                if not err:
                    r.append("usage error without an explanation")
                if kind == "unknown" and not d and lossy(case["args"][0]) not in text_of(s.err):
                    r.append("the unknown option %r is not named: %r" % (case["args"][0], err[:100]))
        t.add("files_watched", len(s.before))
        t.add("syscalls_observed", len(s.events))
        done(s)
        return r

    JUDGES["C25"] = judge
    if lab.tier == "replay":
        return 0
    return explore(lab, make, judge, 2800 if not lab.thorough else 30000, 200 if not lab.thorough else 600,
                   "argument vectors: help, version, none, --check alone, every listed unknown or malformed option and random ones in first position, option words behind paths, "
                   "each with existing unformatted files among the arguments; distinct by arguments and contents",
                   assumptions=["file access is observed through system call interposition and snapshots"])
