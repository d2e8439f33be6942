"""C24: instructions executed and bytes allocated for growing repetitions of a
pattern.  Costs are taken for n, 2n, 4n and 8n; the growth is the factor per
doubling by which the last increment exceeds the first one: 2 for cost linear
in n, 4 for quadratic cost; the limit lies between."""
import os, random, re, shutil, subprocess
from common import *

LIMIT = 2.5
SURE = 3.4  # nearly quadratic: one confirmation is enough
PATIENCE = 150


def rep(f):
    return lambda n: "".join(f(i) for i in range(n))


def wrap(a, f, b, sep=""):
    return lambda n: a + sep.join(f(i) for i in range(n)) + b


# name -> (text for n repetitions, n)
def patterns():
    eq = lambda body: wrap("model M\nequation\n", body, "end M;\n")
    el = lambda body: wrap("model M\n", body, "end M;\n")
    al = lambda body: wrap("function f\nalgorithm\n", body, "end f;\n")
    ex = lambda op: wrap("model M\n  Real x = ", lambda i: "a%d" % i, ";\nend M;\n", op)
    P = {
        "classes": (rep(lambda i: "model M%d\n  Real x;\nend M%d;\n" % (i, i)), 300),
        "classes with blank lines": (rep(lambda i: "model M%d\n\n\n\nend M%d;\n\n\n\n" % (i, i)), 300),
        "nested siblings": (el(lambda i: "model N%d\nequation\n x=1;\nend N%d;\n" % (i, i)), 300),
        "elements": (el(lambda i: "Real x%d(start = 1, fixed = true) = %d \"d\";\n" % (i, i)), 300),
        "elements on one line": (el(lambda i: "Real x%d; " % i), 400),
        "component list": (wrap("model M\nReal ", lambda i: "x%d" % i, ";\nend M;\n", ", "), 600),
        "component list with descriptions": (wrap("model M\nReal ", lambda i: "x%d \"d\"" % i, ";\nend M;\n", ", "), 400),
        "imports": (el(lambda i: "import A.B%d;\n" % i), 400),
        "import list": (wrap("model M\nimport A.{", lambda i: "x%d" % i, "};\nend M;\n", ", "), 800),
        "extends": (el(lambda i: "extends A%d(x = 1);\n" % i), 300),
        "redeclarations": (wrap("model M\nextends A(", lambda i: "redeclare model B%d = C" % i, ");\nend M;\n", ", "), 300),
        "sections": (el(lambda i: "protected\nReal x;\nequation\nx = 1;\n"), 250),
        "equations": (eq(lambda i: "x%d = y + %d * z;\n" % (i, i)), 300),
        "connects": (eq(lambda i: "connect(a%d.p, b.n);\n" % i), 400),
        "connects with annotations": (eq(lambda i: "connect(a%d.p, b.n) annotation(Line(points = {{%d, 1}, {2, 3}}, color = {0, 0, 255}));\n" % (i, i)), 120),
        "if-equations": (eq(lambda i: "if a then\n x=1;\n elseif b then\n x=2;\n else\n x=3;\n end if;\n"), 150),
        "elseif branches": (wrap("model M\nequation\nif a then\n x=0;\n", lambda i: "elseif b%d then\n x=1;\n" % i, "end if;\nend M;\n"), 300),
        "elsewhen branches": (wrap("model M\nequation\nwhen a then\n x=0;\n", lambda i: "elsewhen b%d then\n x=1;\n" % i, "end when;\nend M;\n"), 300),
        "for-equations": (eq(lambda i: "for i in 1:%d loop\n x[i]=1;\n end for;\n" % i), 200),
        "statements": (al(lambda i: "x%d := y + f(%d);\n" % (i, i)), 300),
        "multiple assignments": (al(lambda i: "(a, , b) := f(%d);\n" % i), 300),
        "while-statements": (al(lambda i: "while a < %d loop\n x := 1;\n break;\n end while;\n" % i), 200),
        "line comments": (el(lambda i: "// comment %d\n" % i), 800),
        "comments and elements": (el(lambda i: "// comment %d\nReal x%d; // trailing\n" % (i, i)), 300),
        "block comments on one line": (lambda n: "model M\n" + "/* c */ " * n + "\nReal x;\nend M;\n", 600),
        "inner comments": (wrap("model M\nReal x = ", lambda i: "a /* %d */" % i, ";\nend M;\n", " + "), 500),
        "comments at the end": (lambda n: "model M\nend M;\n" + "// end\n" * n, 800),
        "blank lines": (lambda n: "model M\n" + "\n" * n + "Real x;\nend M;\n", 20000),
        "spaces": (lambda n: "model M" + " " * n + "Real x; end M;\n", 20000),
        "long name": (lambda n: "model M Real " + "x" * n + "; end M;\n", 20000),
        "long quoted name": (lambda n: "model M Real '" + "x y" * n + "'; end M;\n", 6000),
        "long number": (lambda n: "model M Real x = " + "1" * n + "." + "2" * n + "; end M;\n", 9000),
        "long string": (lambda n: "model M \"" + "text \\\" ä" * n + "\" end M;\n", 3000),
        "many-line string": (lambda n: "model M \"" + "line\n" * n + "\" end M;\n", 4000),
        "strings": (wrap("model M annotation(Documentation(info = ", lambda i: "\"line %d\"" % i, "));\nend M;\n", " + "), 500),
        "long comment": (lambda n: "model M /* " + "text\n" * n + " */ end M;\n", 4000),
        "long line comment": (lambda n: "model M // " + "text " * n + "\nend M;\n", 4000),
        "sum": (ex(" + "), 600),
        "sum, wrapped": (ex("\n + "), 500),
        "product": (ex(" * "), 600),
        "conjunction": (ex(" and "), 600),
        "disjunction, wrapped": (ex("\nor "), 500),
        "dotted name": (ex("."), 600),
        "array": (wrap("model M\nReal x[:] = {", lambda i: "%d" % i, "};\nend M;\n", ", "), 800),
        "array, wrapped": (wrap("model M\nReal x[:] = {\n", lambda i: "%d" % i, "\n};\nend M;\n", ",\n"), 600),
        "matrix rows": (wrap("model M\nReal x[:,:] = [", lambda i: "%d, 1" % i, "];\nend M;\n", "; "), 500),
        "arguments": (wrap("model M\nReal x = f(", lambda i: "a%d" % i, ");\nend M;\n", ", "), 800),
        "named arguments": (wrap("model M\nReal x = f(", lambda i: "a%d = %d" % (i, i), ");\nend M;\n", ", "), 500),
        "named arguments, wrapped": (wrap("model M\nReal x = f(\n", lambda i: "a%d = %d" % (i, i), ");\nend M;\n", ",\n"), 400),
        "modifications": (wrap("model M\nA a(", lambda i: "b%d(c = %d)" % (i, i), ");\nend M;\n", ", "), 400),
        "subscripts": (wrap("model M\nReal x[", lambda i: ":", "];\nend M;\n", ", "), 800),
        "loop indices": (wrap("model M\nequation\nfor ", lambda i: "i%d in 1:2" % i, " loop\n x = 1; end for;\nend M;\n", ", "), 400),
        "output list": (wrap("model M\nequation\n(", lambda i: "a%d" % i, ") = f(x);\nend M;\n", ", "), 600),
        "enumeration": (wrap("type E = enumeration(", lambda i: "e%d" % i, ");\n", ", "), 800),
        "enumeration with descriptions": (wrap("type E = enumeration(", lambda i: "e%d \"d\"" % i, ");\n", ", "), 500),
        "else-if expressions": (wrap("model M\nReal x = if a then 1 ", lambda i: "elseif b%d then %d " % (i, i), "else 2;\nend M;\n"), 300),
        "annotations": (wrap("model M\nannotation(", lambda i: "A%d(b = {1, 2})" % i, ");\nend M;\n", ", "), 300),
        "derivative names": (wrap("function f = der(g, ", lambda i: "x%d" % i, ");\n", ", "), 800),
        "parentheses pairs": (wrap("model M\nReal x = ", lambda i: "(a + (b))", ";\nend M;\n", " * "), 400),
        "unexpected characters": (lambda n: "@ " * n, 1500),
        "unexpected characters without space": (lambda n: "model M $$" + "$" * n, 3000),
        "errors, one per class": (rep(lambda i: "model M%d Real = ; end M%d;\n" % (i, i)), 300),
        "surplus tokens": (lambda n: "model M end M; " + "+ 1 " * n, 1500),
        "surplus ends": (lambda n: "end; " * n, 1500),
        "semicolons": (lambda n: ";" * n, 5000),
        "operators only": (lambda n: "model M equation " + "+ - " * n, 1500),
        "commas in a call": (lambda n: "model M Real x = f(" + "," * n, 3000),
        "errors in equations": (eq(lambda i: "x = = %d;\n" % i), 400),
        "errors in modifications": (el(lambda i: "Real x%d(a = , b);\n" % i), 300),
        "errors in statements": (al(lambda i: "x := ;\n"), 400),
        "unclosed quote": (lambda n: "model M \"" + "text \n" * n, 3000),
        "quotes": (lambda n: "\"\" " * n, 2000),
        "unclosed name": (lambda n: "model M '" + "text \n" * n, 3000),
        "unclosed comment": (lambda n: "model M /*" + "text * \n" * n, 3000),
        "stars in a comment": (lambda n: "model M /*" + "*" * n + "*/ end M;", 20000),
        "names only": (lambda n: "x " * n, 3000),
        "ends of nothing": (lambda n: "model M " + "end " * n, 2000),
        "keywords": (lambda n: "model " * n, 2000),
        "dots": (lambda n: "." * n, 3000),
    }
    # further lists and branches of the grammar
    P["elsewhen branches of statements"] = (wrap("function f\nalgorithm\nwhen a then\n x := 0;\n", lambda i: "elsewhen b%d then\n x := 1;\n" % i, "end when;\nend f;\n"), 300)
    P["elseif branches of statements"] = (wrap("function f\nalgorithm\nif a then\n x := 0;\n", lambda i: "elseif b%d then\n x := 1;\n" % i, "else\n x := 2;\nend if;\nend f;\n"), 300)
    P["empty elseif branches"] = (wrap("model M\nequation\nif a then\n", lambda i: "elseif b%d then\n" % i, "end if;\nend M;\n"), 400)
    P["if-statements"] = (al(lambda i: "if a then\n x := 1;\nelse\n x := 2;\nend if;\n"), 200)
    P["when-statements"] = (al(lambda i: "when a then\n x := 1;\nend when;\n"), 200)
    P["when-equations"] = (eq(lambda i: "when a then\n x = 1;\nend when;\n"), 200)
    P["for-statements"] = (al(lambda i: "for i in 1:2 loop\n x := 1;\nend for;\n"), 200)
    P["returns"] = (al(lambda i: "return;\nbreak;\n"), 400)
    P["equations in a loop"] = (wrap("model M\nequation\nfor i in 1:2 loop\n", lambda i: "x[%d] = 1;\n" % i, "end for;\nend M;\n"), 300)
    P["statements in a loop"] = (wrap("function f\nalgorithm\nwhile true loop\n", lambda i: "x[%d] := 1;\n" % i, "end while;\nend f;\n"), 300)
    P["calls"] = (eq(lambda i: "f(x, %d);\n" % i), 300)
    P["call statements"] = (al(lambda i: "f(x, %d);\n" % i), 300)
    P["deselections"] = (wrap("model M\nextends A(", lambda i: "break x%d" % i, ");\nend M;\n", ", "), 500)
    P["deselected connections"] = (wrap("model M\nextends A(", lambda i: "break connect(a, b%d)" % i, ");\nend M;\n", ", "), 300)
    P["deselections, wrapped"] = (wrap("model M\nextends A(\n", lambda i: "break x%d" % i, ");\nend M;\n", ",\n"), 400)
    P["component redeclarations"] = (wrap("model M\nA a(", lambda i: "redeclare final parameter Real x%d = 1" % i, ");\nend M;\n", ", "), 300)
    P["replaceable arguments"] = (wrap("model M\nA a(", lambda i: "each final replaceable model B%d = C constrainedby D" % i, ");\nend M;\n", ", "), 200)
    P["described arguments"] = (wrap("model M\nA a(", lambda i: "b%d = 1 \"d\"" % i, ");\nend M;\n", ", "), 300)
    P["replaceable elements"] = (el(lambda i: "replaceable model B%d = C constrainedby D(x = 1) \"d\" annotation(x = 1);\n" % i), 150)
    P["conditional components"] = (el(lambda i: "A a%d if b;\n" % i), 400)
    P["prefixed components"] = (el(lambda i: "inner outer flow discrete input .A.B a%d[3];\n" % i), 300)
    P["short classes"] = (el(lambda i: "type T%d = input Real[3](unit = \"m\") \"d\";\n" % i), 250)
    P["open enumerations"] = (el(lambda i: "type E%d = enumeration(:);\n" % i), 400)
    P["derivative functions"] = (el(lambda i: "function f%d = der(g, x, y);\n" % i), 300)
    P["names of a derivative function"] = (wrap("function f = der(g, ", lambda i: "x%d" % i, ") \"d\";\n", ", "), 600)
    P["external functions"] = (el(lambda i: "function f%d external \"C\" y = g(x, 1) annotation(x = 1); end f%d;\n" % (i, i)), 150)
    P["external arguments"] = (wrap("function f external g(", lambda i: "x%d" % i, ");\nend f;\n", ", "), 600)
    P["extending classes"] = (el(lambda i: "model extends A%d(x = 1) \"d\" end A%d;\n" % (i, i)), 250)
    P["class annotations"] = (el(lambda i: "model A%d annotation(x = 1); end A%d;\n" % (i, i)), 250)
    P["initial sections"] = (el(lambda i: "initial equation\nx = 1;\ninitial algorithm\nx := 1;\n"), 200)
    P["empty sections"] = (el(lambda i: "public\nequation\nalgorithm\nprotected\n"), 300)
    P["renaming imports"] = (el(lambda i: "import B%d = .A.B;\n import C.*;\n" % i), 300)
    P["import list, wrapped"] = (wrap("model M\nimport A.{\n", lambda i: "x%d" % i, "};\nend M;\n", ",\n"), 500)
    P["names of within"] = (wrap("within A", lambda i: ".x%d" % i, ";\n"), 600)
    P["final classes"] = (rep(lambda i: "final encapsulated partial package P%d end P%d;\n" % (i, i)), 300)
    P["reference with subscripts"] = (wrap("model M\nReal x = a", lambda i: ".b%d[1, :]" % i, ";\nend M;\n"), 300)
    P["if-expression branches"] = (wrap("model M\nReal x = if a then 1", lambda i: " elseif b%d then %d" % (i, i), " else 2;\nend M;\n"), 300)
    P["if-expression branches, wrapped"] = (wrap("model M\nReal x = if a then 1\n", lambda i: " elseif b%d then %d\n" % (i, i), " else 2;\nend M;\n"), 250)
    P["relations"] = (wrap("model M\nReal x = a", lambda i: " and b%d <> c" % i, ";\nend M;\n"), 400)
    P["powers"] = (wrap("model M\nReal x = a", lambda i: " + b%d .^ c" % i, ";\nend M;\n"), 400)
    P["negations"] = (wrap("model M\nReal x = a", lambda i: " or not b%d" % i, ";\nend M;\n"), 400)
    P["parentheses in a row"] = (wrap("model M\nReal x = a", lambda i: " - (b%d)" % i, ";\nend M;\n"), 400)
    P["ranges"] = (wrap("model M\nReal x[:] = {", lambda i: "1 : %d : 3" % i, "};\nend M;\n", ", "), 300)
    P["matrix, one wide row"] = (wrap("model M\nReal x = [", lambda i: "%d" % i, "];\nend M;\n", ", "), 600)
    P["matrix rows, wrapped"] = (wrap("model M\nReal x = [\n", lambda i: "%d, 1" % i, "];\nend M;\n", ";\n"), 400)
    P["array of arrays"] = (wrap("model M\nReal x = {", lambda i: "{%d, 1}" % i, "};\nend M;\n", ", "), 400)
    P["array of strings"] = (wrap("model M\nString x = {", lambda i: "\"s%d\"" % i, "};\nend M;\n", ", "), 500)
    P["partial applications"] = (wrap("model M\nReal x = f(", lambda i: "function g(a%d = 1)" % i, ");\nend M;\n", ", "), 300)
    P["arguments of a partial application"] = (wrap("model M\nReal x = f(function g(", lambda i: "a%d = 1" % i, "));\nend M;\n", ", "), 400)
    P["comprehension indices"] = (wrap("model M\nReal x = {a for ", lambda i: "i%d in b" % i, "};\nend M;\n", ", "), 400)
    P["derivatives"] = (wrap("model M\nReal x = 1", lambda i: " + der(x%d) + pure(f(y))" % i, ";\nend M;\n"), 200)
    P["omitted outputs"] = (lambda n: "function f\nalgorithm\n(" + ", " * n + "x) := g();\nend f;\n", 1000)
    P["quoted names"] = (el(lambda i: "Real 'x %d \\' y';\n" % i), 400)
    P["numbers"] = (wrap("model M\nReal x[:] = {", lambda i: "%d.5e-%d" % (i, i), "};\nend M;\n", ", "), 600)
    P["block comments of lines"] = (el(lambda i: "/* a\n b %d */\nReal x;\n" % i), 400)
    P["block comments behind elements"] = (el(lambda i: "Real x; /* a %d */ /* b */\n" % i), 400)
    P["comments before the first class"] = (lambda n: "// a\n\n" * n + "model M\nend M;\n", 800)
    P["comments behind within"] = (lambda n: "within A;\n" + "/* a */\n" * n + "model M\nend M;\n", 800)
    P["comments before a list item"] = (lambda n: "model M\nReal x = f(\n a,\n" + "// c\n" * n + " b);\nend M;\n", 800)
    P["comments in list items"] = (wrap("model M\nReal x = f(\n", lambda i: "a%d, // c\n" % i, "b);\nend M;\n"), 400)
    P["carriage returns"] = (el(lambda i: "Real x%d;\r\n" % i), 500)
    P["tabs"] = (el(lambda i: "\t\t\tReal\tx%d;\t\n" % i), 400)
    P["foreign letters in comments"] = (el(lambda i: "// \u00e4\u4e2d\U0001f389 %d\n" % i), 600)
    # bounded nesting, many times
    P["moderate nesting, repeated"] = (eq(lambda i: "x = f(g({1, {2, (3 + h(a = {4}))}}));\n"), 150)
    P["wrapped calls in calls"] = (eq(lambda i: "x = f(\n g(\n  1,\n  h(2)));\n"), 200)
    P["nested blocks, repeated"] = (eq(lambda i: "if a then for i in 1:2 loop when b then x = 1; end when; end for; end if;\n"), 150)
    return P


def many_files(d, n):
    os.mkdir(d)
    for i in range(n):
        with open(os.path.join(d, "f%d.mo" % i), "w") as f:
            f.write("model M%d\n\n  Real x;\n\nend M%d;\n" % (i, i))


def instructions(lab, args):
    p = subprocess.run(["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", lab.tool["release"], "--check"] + args,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=PATIENCE, env={"PATH": "/usr/bin:/bin"})
    m = re.search(rb"I\s+refs:\s+([\d,]+)", p.stderr)
    if not m:
        raise Trouble("no instruction count: %r" % p.stderr[-300:])
    return int(m.group(1).replace(b",", b"")), p.returncode


def allocated(lab, files):
    o = subprocess.run([lab.monitor, "cost"] + files, stdout=subprocess.PIPE, timeout=PATIENCE)
    if o.returncode:
        raise Trouble("no allocation counts")
    r = [l.split() for l in o.stdout.decode().split("\n") if l]
    return [int(x[1]) for x in r], [int(x[2]) for x in r], [x[0] for x in r]


def ratio(c):
    a, b = c[1] - c[0], c[3] - c[2]
    return (max(b, 0) / max(a, 1)) ** 0.5


def measure(lab, name, text, n, t):
    """Problems of one pattern.  What shows at these sizes only (growing
    vectors are copied now and then) is no growth: larger sizes must show it
    as well."""
    try:
        p = measure_once(lab, name, text, n, t)
    except subprocess.TimeoutExpired:
        return ["no result within %d s for %r" % (PATIENCE, name)]
    sure = any(float(re.search(r"by the factor ([\d.]+)", x).group(1)) > SURE for x in p)
    for more in (3, 7):
        if p and not (sure and more == 7):
            t.add("confirmations_tried")
            try:
                p = measure_once(lab, name, text, n * more, t)
            except subprocess.TimeoutExpired:
                return p
    return p


def measure_once(lab, name, text, n, t):
    d = lab.fresh()
    fs = []
    for k, m in enumerate((n, 2 * n, 4 * n, 8 * n)):
        p = os.path.join(d, "n%d.mo" % k)
        with open(p, "w") as f:
            f.write(text(m))
        fs.append(p)
    sizes = [os.path.getsize(p) for p in fs]
    ins = [instructions(lab, [p])[0] for p in fs]
    alloc, peak, how = allocated(lab, fs)
    shutil.rmtree(d)
    return judge(name, n, sizes, {"instructions": ins, "allocated bytes": alloc, "peak memory": peak}, how, t)


def judge(name, n, sizes, costs, how, t):
    r = []
    grown = ((sizes[3] - sizes[2]) / (sizes[1] - sizes[0])) ** 0.5
    for what, c in costs.items():
        # relative to the growth of the text (2 for exact doubling)
        q = ratio(c) / grown * 2
        t.saw("patterns", name)
        t.add("measurements", 4)
        with t.lock:
            m = t.sets.setdefault("worst_ratio", {})
            m[what] = max(m.get(what, 0), round(q, 3))
        # a small absolute growth is noise
        if q > LIMIT and c[3] - c[2] > 40000:
            r.append("%s for %d, %d, %d, %d times %r: %s (%s bytes of text): grows by the factor %.2f per doubling where 2 is proportional" % (what, n, 2 * n, 4 * n, 8 * n, name, c, sizes, q))
    t.add("patterns_" + how[3])
    return r


def c24(lab):
    t = Tally()
    bad = []
    jobs = []
    f = 1.0 if not lab.thorough else 5
    for name, (text, n) in patterns().items():
        jobs.append((name, text, int(n * f)))
    rng = random.Random("C24/%s" % lab.seed)
    # repetition of random sources and of random damaged sources
    src = [s for s in lab.sources(lab.seed * 1000 + 24, 60 if not lab.thorough else 600)]
    src = [s.decode() for s in src]
    src = [s for s in src if 100 < len(s) < 4000 and "within" not in s][: 16 if not lab.thorough else 160]
    for i, s in enumerate(src):
        if i % 2:
            k = rng.randrange(len(s))
            s = s[:k] + rng.choice(["", "(", ")", ";", "=", "end", "@", "x"]) + s[k + rng.randint(0, 4):]
        jobs.append(("random source %d:\n%s" % (i, s), (lambda s: lambda n: (s + "\n") * n)(s), max(2, int(12000 * f) // len(s))))
    capped = []
    stop = threading.Event()

    def one(job):
        name, text, n = job
        if stop.is_set():
            return
        if time.time() - lab.t0 > (400 if not lab.thorough else 780):
            capped.append(name)
            return
        p = measure(lab, name, text, n, t)
        case = {"name": name, "n": n, "text": text(2)}
        with t.lock:
            t.evals += 1
            t.distinct.add(digest(case))
            if len(t.samples) < 3:
                t.samples.append(dict(case, text=case["text"][:200]))
            if p:
                bad.append((dict(case, unit=text(n)), p))
                stop.set()

    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(one, jobs))
    # many files
    d = lab.fresh()
    k = int(100 * f)
    cs = []
    for j, m in enumerate((k, 2 * k, 4 * k, 8 * k)):
        many_files(os.path.join(d, str(j)), m)
        cs.append(instructions(lab, [os.path.join(d, str(j))])[0])
    t.evals += 1
    q = ratio(cs)
    t.add("measurements", 4)
    if q > LIMIT:
        bad.append(({"name": "many files", "n": k, "text": ""}, ["instructions for %d, %d, %d, %d files: %s" % (k, 2 * k, 4 * k, 8 * k, cs)]))
    worst = t.sets.pop("worst_ratio", {})
    return finish(lab, t, bad,
                  "patterns of source text (one per construct, comment, white space, token and error shape, and random sources) repeated n, 2n, 4n and 8n times; instructions of the release build "
                  "counted by valgrind, allocation by the monitor's allocator; a pattern is non-trivial by construction; distinct by text",
                  "exploration",
                  ["growth of the increments by more than %.1f per doubling where proportional cost gives 2 (quadratic: 4), confirmed at three and seven times the size, is a violation" % LIMIT, "nesting depth is bounded in all patterns"],
                  {"worst_growth_of_increments": worst, "many_files_growth": round(q, 3), "stopped_by_time": bool(capped)})


def replay(case):
    print("pattern %r repeated %d times" % (case["name"], case["n"]))
    lab = Lab("C24", 1, "quick", ("release",))
    try:
        P = patterns()
        if case["name"] in P:
            text = P[case["name"]][0]
        else:
            s = case["name"].split("\n", 1)[-1]
            text = lambda n: (s + "\n") * n
        t = Tally()
        p = measure(lab, case["name"], text, case["n"], t)
    finally:
        lab.close()
    print("\n".join(p) or "holds here")
    return 1 if p else 0
