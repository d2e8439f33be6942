"""C22: every file operation of a run made to fail, one by one and in pairs."""
import errno, os, random, re, signal
from common import *
from checks import Pool, entry, tag_of, died

ERR = {
    "opendir": ["EACCES", "EIO", "ENOENT", "EMFILE", "ENOMEM"],
    "readdir": ["EIO", "EBADF", "ENOENT"],
    "open-read": ["EACCES", "ENOENT", "EIO", "EMFILE", "EPERM", "ELOOP"],
    "read": ["EIO", "EISDIR", "ESTALE"],
    "open-trunc": ["EACCES", "EROFS", "ENOSPC", "EPERM", "EIO", "ETXTBSY", "EMFILE"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
}
DEFAULT = ["EIO", "ENOSPC", "EACCES"]
# operations that the contract says are retried or completed
RETRIED = {"open-read": ["E4"], "read": ["E4", "S"], "open-trunc": ["E4"], "open-write": ["E4"], "write": ["E4", "S"]}

KNOWN_TEXT = ("files are overwritten in place: an error or the end of the process between truncating a file and the end of its last write "
              "leaves an incomplete file (src/main.rs: write_file)")


def scenarios(pool, rng, n):
    r = []
    for i in range(n):
        used = set()
        entries, tags = [], {}

        def add(p, data, **kw):
            entries.append(entry(p, data, **kw))

        texts = [t for t in pool.changing if len(t) > 20]
        bigs = [t for t in texts if len(t) > 2000] or texts
        shape = i % 4
        names = [tag_of(rng, used) for _ in range(7)]
        if shape == 0:
            # named files
            for k in range(3):
                add(names[k] + ".mo", rng.choice(texts if k else bigs))
            args = [names[k] + ".mo" for k in range(3)]
        elif shape == 1:
            # a directory with a subdirectory
            add("p/%s.mo" % names[0], rng.choice(texts))
            add("p/%sd/%s.mo" % (names[1], names[2]), rng.choice(texts))
            add("p/%s.mo" % names[3], rng.choice(texts))
            add("p/%s.txt" % names[4], b"text")
            args = ["p"]
        elif shape == 2:
            # directory and file, one of them with a syntax error
            add("q/%s.mo" % names[0], rng.choice(texts))
            add("q/%s.mo" % names[1], rng.choice(pool.invalid))
            add("%s.mo" % names[2], rng.choice(texts))
            args = ["q", "%s.mo" % names[2]]
            if rng.random() < 0.5:
                args.reverse()
        else:
            # check mode
            add("p/%s.mo" % names[0], rng.choice(pool.formatted))
            add("p/%s.mo" % names[1], rng.choice(texts))
            add("%s.mo" % names[2], rng.choice(pool.formatted))
            args = ["--check", "p", "%s.mo" % names[2]]
        r.append({"entries": entries, "args": args, "tool": "release" if i % 3 else "debug"})
    return r


def tags_in(case):
    return {e["path"]: re.search(r"k\d+z", os.path.basename(e["path"])).group(0) for e in case["entries"] if e["path"].endswith(".mo")}


def judge(lab, case, t):
    """One run with injected faults against the contract."""
    s = perform(lab, case)
    r = []
    check = case["args"][0] == "--check"
    data = {e["path"]: unb64(e["data"]) for e in case["entries"]}
    tags = tags_in(case)
    want = {p: lab.oracle.written(data[p]) for p in tags}
    faults = [(n, k, a, os.path.relpath(os.path.join(s.w, p), s.w)) for n, k, a, p in s.events if a != "-"]
    for n, k, a, p in faults:
        t.add("injected_" + k)
        t.saw("fault_kinds", (k, a))
    if not faults:
        t.skip("fault point not reached")
    killed = any(a in "KL" for _, _, a, _ in faults)
    failed, hidden = {}, []
    for n, k, a, p in faults:
        if a in ("K", "L"):
            continue
        if a in RETRIED.get(k, []):
            continue
        failed.setdefault(p, []).append((k, a))
        if k in ("opendir", "readdir"):
            hidden.append(p)
    # state of the files
    for p in tags:
        old, new = data[p], want[p]
        got = s.after.get(p, {}).get("data")
        below = any(p.startswith(h + "/") for h in hidden)
        if check or new is None:
            ok = got == old
            allowed = "its old content"
        elif killed:
            ok = got in (old, new)
            allowed = "its old or its complete new content"
        elif p in failed:
            ok = got in (old, new)
            allowed = "its old or its complete new content"
        elif below:
            ok = got in (old, new)
            allowed = "its old or its complete new content"
        else:
            ok = got == new
            allowed = "its new content"
        if not ok:
            what = "%r has neither" if "or" in allowed else "%r does not have"
            msg = (what + " %s but %r after %s") % (p, allowed, (got or b"")[:80], faults or "no fault")
            # the recorded finding: in-place overwriting interrupted
            evs = [(k, a) for _, k, a, q in s.events if os.path.normpath(os.path.join(os.path.relpath(s.w, s.w), os.path.relpath(os.path.join(s.w, q), s.w))) == p]
            interrupted = in_place(evs, killed)
            if got is not None and new is not None and not check and new.startswith(got) and interrupted:
                with t.lock:
                    t.known[KNOWN_TEXT] = t.known.get(KNOWN_TEXT, 0) + 1
            else:
                r.append(msg)
    others = {p: () for p in s.before}
    for p in s.before:
        if p in tags and not check:
            others[p] = META_ALL
    extra = [c for c in changes(s.before, s.after, others)]
    if extra and not killed:
        r += [c + " after " + str(faults) for c in extra]
    if not killed:
        d = died(s)
        if d:
            r.append("%s after %s" % (d, faults))
        else:
            if failed and s.rc == 0:
                r.append("exit status 0 although %s failed" % failed)
            bad = [p for p in tags if want[p] is None] + ([p for p in tags if want[p] not in (None, data[p])] if check else [])
            if not failed and s.rc != (1 if bad else 0):
                r.append("exit status %s after faults that must go unnoticed: %s: %s" % (s.rc, faults, (s.out + s.err)[:200]))
            for p in failed:
                word = tags.get(p) or os.path.basename(p)
                ls = [l for l in s.err.split("\n") + s.out.split("\n") if word in l and (p in l or not p.isascii()) and "check passed" not in l]
                if not ls:
                    r.append("no message names %r although %s failed: %r" % (p, failed[p], (s.out + s.err)[:300]))
            if not failed:
                noisy = [p for p in tags if want[p] is not None and not check and tags[p] in s.out + s.err]
                if noisy:
                    r.append("%r is mentioned after faults that must go unnoticed: %s" % (noisy[0], faults))
            if check:
                for p in tags:
                    if p in failed or any(p.startswith(h + "/") for h in hidden) or want[p] is None:
                        continue
                    w = "passed" if want[p] == data[p] else "failed"
                    if not any(tags[p] in l and w in l for l in s.out.split("\n")):
                        r.append("%r is not reported as %s after %s" % (p, w, faults))
    t.add("runs_killed" if killed else "runs_with_failures" if failed else "runs_with_transparent_faults" if faults else "runs_without_fault")
    if not r and not killed and failed:
        t.add("untouched_neighbours_confirmed", sum(1 for p in tags if p not in failed))
    done(s)
    return r


META_ALL = ("mtime", "ctime", "size", "data")


def in_place(evs, killed):
    """Was this file being overwritten in place when the fault came?"""
    opened = False
    for k, a in evs:
        if k == "open-trunc":
            if a == "-" or a == "L" or a == "E4":
                opened = True
            continue
        if k == "write" and opened and a != "-" and a not in ("S", "E4"):
            return True
    # killed inside the window, whatever the operation was
    return opened and killed


def real_faults(lab, pool, rng):
    """Faults the system itself makes, without injection."""
    r = []
    if not lab.drop:
        return r
    for k in range(12):
        used = set()
        a, b, c = (tag_of(rng, used) for _ in range(3))
        texts = pool.changing
        kind = ["readonly", "unreadable", "closed-dir", "full"][k % 4]
        if kind == "readonly":
            entries = [entry(a + ".mo", rng.choice(texts)), entry(b + ".mo", rng.choice(texts), mode=0o444), entry(c + ".mo", rng.choice(texts))]
            r.append({"entries": entries, "args": [a + ".mo", b + ".mo", c + ".mo"], "real": [b + ".mo"], "tool": "release"})
        elif kind == "unreadable":
            entries = [entry(a + ".mo", rng.choice(texts)), entry(b + ".mo", rng.choice(texts), mode=0o200), entry(c + ".mo", rng.choice(texts))]
            r.append({"entries": entries, "args": [a + ".mo", b + ".mo", c + ".mo"], "real": [b + ".mo"], "tool": "debug"})
        elif kind == "closed-dir":
            d = b + "d"
            entries = [{"path": "p/" + d, "type": "dir", "mode": 0o300}, entry("p/" + a + ".mo", rng.choice(texts)), entry(c + ".mo", rng.choice(texts))]
            r.append({"entries": entries, "args": ["p", c + ".mo"], "real": ["p/" + d], "tool": "release"})
        else:
            # a file that cannot grow: limit on the file size
            continue
    return r


def judge_real(lab, case, t):
    s = perform(lab, case)
    r = []
    d = died(s)
    if d:
        r.append(d)
    for e in case["entries"]:
        if "data" not in e:
            continue
        old = unb64(e["data"])
        got = s.after[e["path"]]["data"]
        if e["path"] in case["real"]:
            if got != old:
                r.append("%r is changed although it cannot be processed" % e["path"])
        elif got != lab.oracle.written(old):
            r.append("%r is not processed beside %r: %r" % (e["path"], case["real"], got[:80]))
    if s.rc == 0 or s.rc == "timeout":
        r.append("exit status %s although %r cannot be processed" % (s.rc, case["real"]))
    for p in case["real"]:
        w = re.search(r"k\d+z", os.path.basename(p)).group(0)
        if not any(w in l and (p in l or not p.isascii()) for l in s.err.split("\n") + s.out.split("\n")):
            r.append("no message names %r: %r" % (p, s.err[:200]))
    t.add("runs_with_real_faults")
    done(s)
    return r


def c22(lab):
    pool = Pool(lab, 150)
    rng = random.Random("C22/%s" % lab.seed)
    t = Tally()
    bad = []
    cases = []
    points = 0
    sc = scenarios(pool, rng, 8 if not lab.thorough else 60)
    clean = [dict(c) for c in sc]
    with ThreadPoolExecutor(CPUS) as ex:
        traces = list(ex.map(lambda c: trace(lab, c), clean))
    for c, evs in zip(sc, traces):
        n = len(evs)
        points += n
        singles = []
        for i, (num, kind, _, p) in enumerate(evs):
            acts = ["E%d" % getattr(errno, x) for x in ERR.get(kind, DEFAULT)] + RETRIED.get(kind, [])
            if kind == "write":
                acts.append("Z")
            for a in acts:
                singles.append("%d=%s" % (num, a))
            for a in ("K", "L"):
                singles.append("%d=%s" % (num, a))
            if kind in ("read", "write", "open-trunc", "open-read", "opendir"):
                for a in acts[:2]:
                    singles.append("%d+=%s" % (num, a))
            if kind in ("read", "write"):
                singles.append("%d+=S" % num)
        for p in singles:
            cases.append(dict(c, plan=p))
        # pairs of faults
        fail = [x for x in singles if "K" not in x and "L" not in x and "+" not in x]
        pairs = [(x, y) for x in fail for y in fail if int(x.split("=")[0]) < int(y.split("=")[0])]
        for x, y in rng.sample(pairs, min(len(pairs), 60 if not lab.thorough else 1500)):
            cases.append(dict(c, plan=x + "," + y))
    # every error there is, somewhere
    for kind in ERR:
        places = [(c, num) for c, evs in zip(sc, traces) for num, k, _, _ in evs if k == kind]
        for e in sorted(errno.errorcode):
            if e != errno.EINTR and places:
                c, num = rng.choice(places)
                cases.append(dict(c, plan="%d%s=E%d" % (num, rng.choice(["", "", "", "+"]), e)))
    cases += clean
    real = real_faults(lab, pool, rng)
    stop = threading.Event()
    capped = []

    def one(job):
        f, c = job
        if stop.is_set():
            return
        if time.time() - lab.t0 > (300 if not lab.thorough else 780):
            capped.append(c)
            return
        p = f(lab, c, t)
        with t.lock:
            t.evals += 1
            t.distinct.add(digest(c))
            if len(t.samples) < 3 and c.get("plan"):
                t.samples.append(brief(c))
            if p:
                bad.append((c, p))
                stop.set()

    jobs = [(judge, c) for c in cases] + [(judge_real, c) for c in real]
    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(one, jobs))
    return finish(lab, t, bad,
                  "all file operations (opendir, readdir, open, read, write, ...) of clean runs over small batches, each made to fail with every listed error, every kind of operation with every error number there is, to transfer a part or nothing, "
                  "to be interrupted, to be the last operation before or after which the process is killed, once and persistently; sampled pairs of faults; distinct by batch and fault plan",
                  "fault_enumeration",
                  ["faults are injected at the C library boundary", "stat failures, failures of the standard streams and of close are not injected",
                   "the finding listed in KNOWN_FINDINGS.md is not counted as a violation"],
                  {"fault_points": points, "scenarios": len(sc), "stopped_by_time": bool(capped)})


def trace(lab, c):
    s = perform(lab, c)
    ev = s.events
    done(s)
    return ev
