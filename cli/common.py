"""Shared machinery of the checks that run the command line tool."""
import base64, hashlib, json, os, random, re, shutil, stat, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
NOBODY = 65534
CPUS = os.cpu_count() or 4


class Trouble(Exception):
    """The check itself cannot work: never a verdict."""


# ---- building -------------------------------------------------------------------

def env_for_cargo():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise Trouble("%s failed:\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-3000:]))


def forget(target):
    """Without its fingerprints cargo compares contents, not times."""
    for prof in ("debug", "release", "plain"):
        d = os.path.join(target, prof, ".fingerprint")
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith("mofmt-"):
                    shutil.rmtree(os.path.join(d, n))


def build_monitor(profile="release"):
    t = os.path.join(BUILD, "monitor")
    forget(t)
    sh(["cargo", "build", "--offline", "--quiet", "--profile", profile, "--manifest-path", os.path.join(VERIF, "monitor/Cargo.toml"), "--target-dir", t], env=env_for_cargo())
    return os.path.join(t, profile, "monitor")


def build_tool(profile):
    t = os.path.join(BUILD, "mofmt")
    forget(t)
    sh(["cargo", "build", "--offline", "--quiet", "--profile", "dev" if profile == "debug" else profile, "--bin", "mofmt",
        "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", t], env=env_for_cargo())
    return os.path.join(t, profile, "mofmt")


def build_shim():
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, "shim.so")
    sh(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(VERIF, "cli/shim.c"), "-ldl"])
    return so


# ---- scratch ----------------------------------------------------------------------

class Lab:
    """Binaries and scratch space of one check."""

    def __init__(self, prop, seed, tier, tools=("release",)):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        base = os.environ.get("TMPDIR") or "/tmp"
        self.dir = tempfile.mkdtemp(prefix="mofmt-%s-" % prop, dir=base)
        os.chmod(self.dir, 0o755)
        bind = os.path.join(self.dir, "bin")
        os.mkdir(bind, 0o755)
        self.monitor = build_monitor()
        self.tool = {}
        for p in tools:
            d = os.path.join(bind, "mofmt-" + p)
            shutil.copy(build_tool(p), d)
            os.chmod(d, 0o755)
            self.tool[p] = d
        self.shim = os.path.join(bind, "shim.so")
        shutil.copy(build_shim(), self.shim)
        os.chmod(self.shim, 0o755)
        self.oracle = Oracle(self)
        self.count = 0
        self.asked = set()
        self.lock = threading.Lock()
        self.drop = self.can_drop()

    def can_drop(self):
        if os.geteuid() != 0:
            return False
        try:
            return subprocess.run([self.tool[next(iter(self.tool))], "--version"], user=NOBODY, group=NOBODY, extra_groups=[],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 if self.tool else False
        except (OSError, subprocess.SubprocessError):
            return False

    def fresh(self):
        with self.lock:
            self.count += 1
            n = self.count
        d = os.path.join(self.dir, "r%d" % n)
        os.mkdir(d, 0o755)
        return d

    def close(self):
        shutil.rmtree(self.dir, onerror=self._force)

    @staticmethod
    def _force(f, p, e):
        try:
            os.chmod(os.path.dirname(p), 0o755)
            os.chmod(p, 0o755)
            f(p)
        except OSError:
            pass

    def sources(self, seed, n):
        """Random grammatical sources."""
        d = self.fresh()
        sh([self.monitor, "sources", str(seed), str(n), d])
        r = []
        for i in range(n):
            with open(os.path.join(d, "%d.mo" % i), "rb") as f:
                r.append(f.read())
        shutil.rmtree(d)
        return r


class Oracle:
    """The library's result for a text: ('text', bytes), ('errors', bytes),
    ('panic', bytes) or ('bytes', b'') for text that is not UTF-8."""

    def __init__(self, lab):
        self.lab = lab
        self.memo = {}
        self.lock = threading.Lock()

    def many(self, texts):
        with self.lock:
            new = [t for t in dict.fromkeys(texts) if t not in self.memo]
            if new:
                d = self.lab.fresh()
                ps = []
                for i, t in enumerate(new):
                    p = os.path.join(d, str(i))
                    with open(p, "wb") as f:
                        f.write(t)
                    ps.append(p)
                for k in range(0, len(ps), 2000):
                    p = subprocess.run([self.lab.monitor, "fmt"] + ps[k:k + 2000], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                    if p.returncode:
                        raise Trouble("no reference results: %s" % p.stdout.decode("utf-8", "replace")[-500:])
                for i, t in enumerate(new):
                    res = None
                    for ext, kind in ((".want", "text"), (".errors", "errors"), (".panic", "panic")):
                        q = os.path.join(d, str(i) + ext)
                        if os.path.exists(q):
                            with open(q, "rb") as f:
                                res = (kind, f.read())
                    self.memo[t] = res or ("bytes", b"")
                shutil.rmtree(d)
            return [self.memo[t] for t in texts]

    def of(self, text):
        return self.many([text])[0]

    def written(self, text):
        """What the tool leaves in a file with this content, or None if it has
        to leave it alone; 'unstable' inputs give Ellipsis."""
        k, v = self.of(text)
        if k == "panic":
            return Ellipsis
        return v + b"\n" if k == "text" else None


# ---- cases ------------------------------------------------------------------------
# A case is plain data (so that it can be written to a replay file):
#   entries: [{path, type: file|dir|link|hard|fifo, data(b64), mode, target}]
#   args: words, "{W}" standing for the absolute path of the work directory
#   cwd: relative directory; env; plan; tool; repeat

def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s)


def lay_out(w, entries, owner):
    os.mkdir(w, 0o755)
    late = []
    for e in entries:
        p = os.path.join(w, e["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        t = e.get("type", "file")
        if t == "dir":
            os.makedirs(p, exist_ok=True)
        elif t == "link":
            os.symlink(e["target"].replace("{W}", w), p)
        elif t == "hard":
            os.link(os.path.join(w, e["target"]), p)
        elif t == "fifo":
            os.mkfifo(p)
        else:
            with open(p, "wb") as f:
                f.write(unb64(e["data"]))
        if "mode" in e:
            late.append((p, e["mode"]))
    if owner is not None:
        for d, ds, fs in os.walk(w):
            os.lchown(d, owner, owner)
            for n in ds + fs:
                os.lchown(os.path.join(d, n), owner, owner)
    for p, m in reversed(late):
        os.chmod(p, m)
    # times in the past, so that any touch shows
    for d, ds, fs in os.walk(w, topdown=False):
        for n in ds + fs:
            os.utime(os.path.join(d, n), ns=(10**18, 10**18 + 7), follow_symlinks=False)
    os.utime(w, ns=(10**18, 10**18 + 7))


def snapshot(w):
    s = {}

    def add(p):
        st = os.lstat(p)
        kind = stat.S_IFMT(st.st_mode)
        data = None
        if stat.S_ISREG(st.st_mode):
            with open(p, "rb") as f:
                data = f.read()
        elif stat.S_ISLNK(st.st_mode):
            data = os.fsencode(os.readlink(p))
        s[os.path.relpath(p, w)] = {"kind": kind, "mode": stat.S_IMODE(st.st_mode), "uid": st.st_uid, "gid": st.st_gid, "ino": st.st_ino,
                                    "nlink": st.st_nlink, "size": st.st_size if kind != stat.S_IFDIR else 0, "mtime": st.st_mtime_ns,
                                    "ctime": st.st_ctime_ns, "data": data}
        if stat.S_ISDIR(st.st_mode):
            for n in sorted(os.listdir(p)):
                add(os.path.join(p, n))

    add(w)
    return s


def changes(a, b, ignore=()):
    """Differences of two snapshots, as text; `ignore` maps a path to the
    fields that may differ."""
    r = []
    for p in sorted(set(a) | set(b)):
        if p not in b:
            r.append("%r has disappeared" % p)
        elif p not in a:
            r.append("%r was created" % p)
        else:
            may = ignore.get(p, ()) if isinstance(ignore, dict) else ()
            d = [k for k in a[p] if a[p][k] != b[p][k] and k not in may]
            if d:
                r.append("%r: %s changed" % (p, ", ".join(d)))
    return r


VALUES = ["1", "1", "0", "", "true", "always", "never", "4", "/nonexistent", "80", "debug"]


class Seen:
    """What one run of the tool did."""
    pass


def perform(lab, case, w=None, fresh=True):
    """Lay the case out, run the tool, record everything."""
    d = lab.fresh()
    w = os.path.join(d, "w")
    owner = NOBODY if lab.drop else None
    lay_out(w, case["entries"], owner)
    log = os.path.join(d, "log")
    open(log, "w").close()
    os.chmod(log, 0o666)
    s = Seen()
    s.w, s.dir = w, d
    s.before = snapshot(w)
    args = [a.replace("{W}", w) for a in case["args"]]
    env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LD_PRELOAD": lab.shim, "SHIM_ROOT": w, "SHIM_LOG": log}
    if case.get("plan"):
        env["SHIM_PLAN"] = case["plan"]
    if case.get("nofile"):
        env["SHIM_NOFILE"] = str(case["nofile"])
    if lab.asked and "env" not in case:
        # the process asks for variables: give it some
        rng = random.Random(digest(case["args"]))
        case["env"] = {n: rng.choice(VALUES) for n in sorted(lab.asked) if rng.random() < 0.7}
    env.update(case.get("env", {}))
    kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if lab.drop else {}
    try:
        p = subprocess.run([lab.tool[case.get("tool", "release")]] + args, cwd=os.path.join(w, case.get("cwd", ".")), env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, **kw)
        s.rc, s.out, s.err = p.returncode, os.fsdecode(p.stdout), os.fsdecode(p.stderr)
    except subprocess.TimeoutExpired as e:
        s.rc, s.out, s.err = "timeout", "", ""
    s.after = snapshot(w)
    s.events, s.asked = [], set()
    with open(log, errors="surrogateescape") as f:
        for l in f:
            c = l.rstrip("\n").split("\t")
            if len(c) == 4:
                q = c[3].replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")
                if c[1] == "getenv":
                    s.asked.add(q)
                else:
                    s.events.append((int(c[0]), c[1], c[2], q))
    lab.asked |= {n for n in s.asked if not re.match("RUST_|SHIM_|LD_|TMPDIR$|HOME$", n)}
    s.args = args
    return s


def done(seen):
    shutil.rmtree(seen.dir, onerror=Lab._force)


def selected(w, args, cwd):
    """Independent statement of which files are to be processed:
    [(display name, path relative to w or None if it does not exist)]."""
    base = os.path.join(w, cwd)
    r = []

    def rel(p):
        return os.path.relpath(os.path.realpath(p), os.path.realpath(w))

    def walk(shown):
        p = os.path.join(base, shown)
        for n in os.listdir(p):
            q = os.path.join(shown, n)
            full = os.path.join(base, q)
            if os.path.isdir(full):
                walk(q)
            elif os.path.isfile(full) and n.endswith(".mo") and n != ".mo":
                r.append((q, rel(full)))

    for a in args:
        p = os.path.join(base, a)
        if os.path.isdir(p):
            walk(a)
        elif os.path.lexists(p):
            r.append((a, rel(p)))
        else:
            r.append((a, None))
    return r


def lossy(name):
    """As the tool displays a name: bytes that are not UTF-8 are replaced."""
    return os.fsencode(name).decode("utf-8", "replace")


def text_of(s):
    return s.encode("utf-8", "surrogateescape").decode("utf-8", "replace")


# ---- running a check --------------------------------------------------------------

class Tally:
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.kinds = {}
        self.samples = []
        self.skipped = {}
        self.sets = {}
        self.known = {}
        self.lock = threading.Lock()

    def add(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def saw(self, group, item):
        with self.lock:
            self.sets.setdefault(group, set()).add(item)

    def skip(self, why):
        with self.lock:
            self.skipped[why] = self.skipped.get(why, 0) + 1


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()


def brief(case):
    """A case for the evidence file: contents shortened."""
    c = json.loads(json.dumps(case))
    for e in c.get("entries", []):
        if "data" in e:
            e["data"] = unb64(e["data"]).decode("utf-8", "replace")[:80]
    return c


def explore(lab, make, judge, count, seconds, rule, nontrivial=lambda c: True, level="exploration", assumptions=(), extra=None):
    """make(rng, i) -> case; judge(lab, case, tally) -> list of problems."""
    t = Tally()
    bad = []
    stop = threading.Event()
    capped = []

    def one(i):
        if stop.is_set():
            return
        if time.time() - lab.t0 > seconds:
            capped.append(i)
            return
        rng = random.Random("%s/%s/%s" % (lab.prop, lab.seed, i))
        case = make(rng, i)
        if case is None:
            return
        problems = judge(lab, case, t)
        with t.lock:
            t.evals += 1
            if nontrivial(case):
                t.distinct.add(digest(case))
            if len(t.samples) < 3:
                t.samples.append(brief(case))
            if problems:
                bad.append((case, problems))
        if problems:
            stop.set()

    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(one, range(count)))
    return finish(lab, t, bad, rule, level, assumptions, dict(extra or {}, stopped_by_time=bool(capped)))


def finish(lab, t, bad, rule, level, assumptions, extra):
    cov = {"evaluations": t.evals, "distinct_nontrivial": len(t.distinct), "rule": rule, "samples": t.samples,
           "observed": dict(sorted(t.counts.items())), "not_judged": t.skipped,
           "distinct": {k: len(v) for k, v in sorted(t.sets.items())}}
    cov.update(extra)
    ev = {"property": lab.prop, "tier": lab.tier, "seed": lab.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions) + ["statements hold for the executions observed, not for all inputs"],
          "wall_s": round(time.time() - lab.t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", lab.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, v in sorted(t.known.items()):
        print("KNOWN-FINDING: property=%s %s (%d times)" % (lab.prop, k, v))
    print("%s: %d executions, %d distinct, %s, %.1f s" % (lab.prop, t.evals, len(t.distinct),
          ", ".join("%s %d" % x for x in sorted(t.counts.items())), time.time() - lab.t0))
    if bad:
        bad.sort(key=lambda b: len(json.dumps(b[0])))
        case, problems = bad[0]
        os.makedirs(OUT, exist_ok=True)
        p = os.path.join(OUT, "%s-%s.replay" % (lab.prop, lab.seed))
        with open(p, "w") as f:
            json.dump({"property": lab.prop, "problems": problems, "case": case}, f, indent=1)
        for x in problems[:5]:
            print(text_of(str(x)))
        print("VIOLATION property=%s replay=%s" % (lab.prop, p))
        return 1
    if t.evals < 5:
        print("too little observed to say anything")
        return 2
    return 0
