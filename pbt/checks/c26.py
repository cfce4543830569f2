"""Generated module graphs over a directory tree (shared, failing and missing modules, many spellings of a path, imports from functions and after cd), run and compared with a model of loading, caching and resolution."""
import os

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.syntax import str_lit

COUNTS = {"quick": 5000, "thorough": 150000}
RULE = ("a case is a script with 1 to 7 modules importing one another acyclically; non-trivial: some module was imported at least twice, or an "
        "import failed, or a module imported another one")
SAMPLE_LABELS = ("shared module", "nested", "fault: syntax", "fault: semantic", "fault: panic", "missing", "symlink", "cd", "from a function", "caught", "uncaught",
                 "main on stdin", "started elsewhere", "value: fun", "value: dict", "value: imp", "value: reexp", "retried", "many modules")
ASSUMPTIONS = ["import graphs are acyclic: a cyclic import recurses without bound", "the main script is not itself a symbolic link",
               "a module that panicked runs again when imported again, as it was never loaded"]

DIRS = ["", "a", "a/b", "c d", "e\xc3\xa9"]
HOWS = ["top", "top", "catch", "catch", "call", "args", "arr", "loop", "alias", "late"]
KINDS = ["arr", "arr", "fun", "fun", "dict", "dict", "imp", "imp", "reexp", "nil", "int", "str", "err", "empty", "bool"]
SPELL = ["plain", "plain", "plain", "dot", "abs", "dotdot", "link", "ldir", "ldirup", "slashes", "rooty"]
MISSING = ["nofile", "dir", "under", "empty", "dangling"]
STARTS = ["root", "root", "dot", "parent", "abs", "inside", "elsewhere", "stdin"]


@st.composite
def module(draw, i, n):
    acts = []
    if i + 1 < n:
        for _ in range(draw(st.integers(2 if i == 0 else 0, 5 if i == 0 else 4))):
            if draw(st.integers(0, 9)) == 0:
                acts.append(["missing", draw(st.sampled_from(MISSING)), draw(st.sampled_from(["catch"] * 6 + ["top"]))])
            else:
                acts.append(["import", draw(st.integers(i + 1, n - 1)), draw(st.sampled_from(SPELL)), draw(st.sampled_from(HOWS if i else HOWS + ["catch"] * 14))])
    for _ in range(draw(st.integers(0, 2))):
        acts.insert(draw(st.integers(0, len(acts))), draw(st.sampled_from([["bump"], ["cd", 0], ["cd", 1], ["cd", 3], ["say"]])))
    return {"dir": draw(st.integers(0, len(DIRS) - 1)), "name": draw(st.sampled_from(["m%d.hsh", "m%d.hsh", "m%d", "m %d.hsh", ".m%d", "m\xc3\xa9%d.hsh", "m\xff%d.hsh", "M%d.hush"])) % i,
            "locals": draw(st.sampled_from([1, 2, 3, 8, 30])), "acts": acts, "value": draw(st.sampled_from(KINDS)),
            "imp": [draw(st.integers(min(i + 1, n), n)), draw(st.sampled_from(SPELL))],
            "pad": draw(st.sampled_from([0] * 90 + [100, 1000, 4000, 4096, 8192, 16384, 32768, 65530, 70000, 140000])),
            "fault": draw(st.sampled_from([None] * 12 + ["syntax", "semantic", "panic", "peek"])) if i else None}


@st.composite
def case_s(draw, top):
    n = draw(st.integers(2, top))
    if draw(st.integers(0, 49)) == 25:
        # Many modules: one imports all of them, and some of them again.
        n = draw(st.sampled_from([16, 17, 18, 32, 33, 34, 40, 64, 65, 66, 100, 129, 150]))
        plain = {"dir": 0, "name": "", "locals": 2, "acts": [], "value": "dict", "imp": [n, "plain"], "fault": None}
        ms = [dict(plain, dir=i % 2, name="m%d.hsh" % i, value=["dict", "fun", "arr", "int"][(i + n) % 4]) for i in range(n)]
        order = list(range(1, n))
        if draw(st.booleans()):
            order.reverse()
        again = draw(st.lists(st.integers(1, n - 1), min_size=1, max_size=12)) + [1, n - 1, 2]
        ms[0]["acts"] = [["import", j, "plain", "top"] for j in order + again]
        for i in draw(st.lists(st.integers(1, n - 2), max_size=4)):
            ms[i]["acts"] = [["import", n - 1, "plain", "top"]]
        return {"modules": ms, "start": "root", "many": True}
    ms = [draw(module(i, n)) for i in range(n)]
    return {"modules": ms, "start": draw(st.sampled_from(STARTS))}


def strategy(tier):
    return case_s(8 if tier == "quick" else 11)


class Tree:
    """Names, places and texts of the modules."""

    def __init__(self, case, root):
        self.case, self.root = case, root
        self.mods = case["modules"]
        self.labels = set()
        self.links = set()

    def dir(self, i):
        return DIRS[self.mods[i]["dir"]] if i else ""

    def name(self, i):
        return self.mods[i]["name"] if i else "t.hsh"

    def path(self, i):
        return os.path.join(self.root, self.dir(i), self.name(i))

    def spell(self, i, j, how):
        """A path of module j, as written in module i."""
        if how in ("link", "ldir", "ldirup"):
            self.labels.add("symlink")
            self.links.add((self.dir(i), how == "link", j))
        here = os.path.join(self.root, self.dir(i))
        rel = os.path.relpath(self.path(j), here)
        if how == "dot":
            return "./" + rel
        if how == "abs":
            return self.path(j)
        if how == "dotdot":
            return "sub/../" + rel
        if how == "link":
            return "lnk%d" % j
        if how == "ldir":
            return "ld%d/%s" % (j, self.name(j))
        if how == "ldirup":
            return "ld%d/sub/../%s" % (j, self.name(j))
        if how == "slashes":
            return rel.replace("/", "//").replace("..//", ".././/")
        if how == "rooty":
            return os.path.join("/" + os.path.relpath(self.root, "/"), ".", os.path.relpath(self.path(j), self.root))
        return rel

    def missing(self, i, what):
        """(path, message)"""
        if what == "nofile":
            return "m999.hsh", "No such file or directory (os error 2)"
        if what == "dir":
            return "sub", "Is a directory (os error 21)"
        if what == "under":
            return "plain.txt/m.hsh", "Not a directory (os error 20)"
        if what == "empty":
            return "", "Is a directory (os error 21)"
        return "dangling", "No such file or directory (os error 2)"

    def source(self, i):
        ls, at = self.plain_source(i)
        pad = self.mods[i].get("pad")
        if pad and len(ls) > 1:
            # A long comment before most of the module.
            self.labels.add("long module")
            ls[0 if len(ls) == 2 else 1] += " #" + "y" * pad
        return ls, at

    def plain_source(self, i):
        """(lines, {act index: line of the import}) of a module."""
        m = self.mods[i]
        if m["value"] == "empty" and i:
            return [], {}
        if m["fault"] == "syntax":
            return ["std.println(\"not run\")", "let x0 = )"], {}
        ls = [USE.replace("\n", " ")]
        k = m["locals"]
        for v in range(k):
            ls.append("let x%d = %d" % (v, self.local(i, v)))
        ls.append("let own = [ \"own%d\" ]" % i)
        ls.append("let held = \"held%d\"" % i)
        ls.append("let count = 0")
        names = ", ".join("x%d" % v for v in range(k))
        ls.append("std.println(\"run %d\")" % i)
        if m["fault"] == "semantic":
            ls.append("zz = 1")
        if m["fault"] == "peek":
            ls.append("std.println(secret)")
        at = {}
        for a, act in enumerate(m["acts"]):
            if act[0] == "bump":
                ls.append("x0 = x0 + 1")
            elif act[0] == "say":
                ls.append("std.println(\"say %d\", own, held, count)" % i)
            elif act[0] == "cd":
                ls.append("{ cd '%s' }" % os.path.join(self.root, DIRS[act[1]]))
            else:
                if act[0] == "import":
                    p, how = str_lit(self.spell(i, act[1], act[2])), act[3]
                else:
                    p, how = str_lit(self.missing(i, act[1])[0]), act[2]
                at[a] = len(ls) + 1
                last = "x%d" % (k - 1)
                if how == "top":
                    ls.append("let r%d = std.import(%s)" % (a, p))
                elif how == "catch":
                    ls.append("let r%d = std.catch(function () std.import(%s) end)" % (a, p))
                elif how == "call":
                    ls.append("function g%d(p) std.import(p) end" % a)
                    ls.append("let r%d = g%d(%s)" % (a, a, p))
                elif how == "args":
                    ls.append("let r%d = idf(x0, std.import(%s), %s)" % (a, p, last))
                elif how == "arr":
                    ls.append("let r%d = [ x0, std.import(%s), %s ][1]" % (a, p, last))
                elif how == "loop":
                    ls.append("let r%d = nil" % a)
                    ls.append("for q in std.range(0, 3, 1) do r%d = std.import(%s) end" % (a, p))
                    at[a] += 1
                elif how == "alias":
                    ls.append("let f%d = @[ load: std.import ]" % a)
                    ls.append("let r%d = f%d.load(%s)" % (a, a, p))
                    at[a] += 1
                else:
                    ls.append("let r%d = if x0 != nil then let s = std.import(%s)" % (a, p))
                    ls.append("s else 0 end")
                ls.append("use(\"%d.%d\", r%d)" % (i, a, a))
            ls.append("std.println(\"L%d\", %s)" % (i, names))
        if m["fault"] == "panic":
            at["panic"] = len(ls) + 1
            ls.append("std.panic(\"in %d\")" % i)
        kind = self.kind(i)
        if kind == "arr":
            ls.append("own")
        elif kind == "fun":
            ls.append("function (t) count = count + 1")
            ls.append("x0 = x0 + 1")
            ls.append("return [ \"fun%d\", count, t, x0, own ] end" % i)
        elif kind == "dict":
            ls.append("@[ get: function () held end, set: function (t) held = t end ]")
        elif kind == "imp":
            at["imp"] = len(ls) + 2
            ls.append("function (t) std.println(\"imp\", t, x0)")
            ls.append("use(t ++ \"!\", std.import(%s))" % str_lit(self.spell(i, m["imp"][0], m["imp"][1])))
            ls.append("\"imported\" end")
        elif kind == "reexp":
            ls.append("r%d" % self.reexport(i))
        elif kind == "nil":
            ls.append("own = 5")
        elif kind == "int":
            ls.append("%d" % (1000 + i))
        elif kind == "str":
            ls.append("\"str%d\"" % i)
        elif kind == "bool":
            ls.append("x0 != nil")
        elif kind == "err":
            ls.append("std.error(\"err%d\", 1)" % i)
        return ls, at

    @staticmethod
    def local(i, v):
        return i * 1000 + v

    def reexport(self, i):
        for a, act in enumerate(self.mods[i]["acts"]):
            if act[0] == "import" and act[3] != "catch":
                return a
        return None

    def kind(self, i):
        m = self.mods[i]
        k = m["value"]
        if k == "reexp" and self.reexport(i) is None:
            k = "str"
        if k == "imp" and m["imp"][0] >= len(self.mods):
            k = "fun"
        return k


# Every module has functions of its own, by the same names.
USE = """function idf(a, b, c)
std.println("args", a, c)
return b end
function use(tag, v)
let t = std.type(v)
if t == "array" then std.push(v, tag)
std.println(tag, v)
else if t == "function" then std.println(tag, v(tag))
else if t == "dict" then std.println(tag, v.get())
v.set(tag)
std.println(tag, v.get())
else if t == "error" then std.println(tag, "error", v.description)
else std.println(tag, t, v) end end end end end"""


class P(Exception):
    def __init__(self, i, line, msg):
        self.i, self.line, self.msg = i, line, msg


class Model:
    def __init__(self, tree):
        self.t = tree
        self.cache = {}
        self.out = []
        self.runs = {}
        self.imports = {}
        self.labels = tree.labels

    def load(self, i, line, j):
        self.imports[j] = self.imports.get(j, 0) + 1
        if i:
            self.labels.add("nested")
        if j in self.cache:
            self.labels.add("shared module")
            return self.cache[j]
        m = self.t.mods[j]
        empty = m["value"] == "empty"
        if not empty and m["fault"] in ("syntax", "semantic", "peek"):
            self.labels.add("fault: " + ("syntax" if m["fault"] == "syntax" else "semantic"))
            raise P(i, line, "failed to import module (%s)" % self.t.path(j))
        v = ("nil",) if empty else self.run(j)
        self.labels.add("value: " + (m["value"] if empty else self.t.kind(j)))
        self.cache[j] = v
        return v

    def run(self, i):
        t, m = self.t, self.t.mods[i]
        if self.runs.get(i):
            self.labels.add("retried")
        self.runs[i] = self.runs.get(i, 0) + 1
        _, at = t.source(i)
        env = {"x": [t.local(i, v) for v in range(m["locals"])], "own": ["own%d" % i], "held": "held%d" % i, "count": 0, "i": i, "at": at}
        self.out.append("run %d" % i)
        rs = {}
        for a, act in enumerate(m["acts"]):
            if act[0] == "bump":
                env["x"][0] += 1
            elif act[0] == "say":
                self.out.append("say %d\t%s\t%s\t%d" % (i, arr(env["own"]), env["held"], env["count"]))
            elif act[0] == "cd":
                self.labels.add("cd")
            else:
                how = act[3] if act[0] == "import" else act[2]
                if how == "call":
                    self.labels.add("from a function")
                try:
                    if act[0] == "missing":
                        self.labels.add("missing")
                        raise P(i, at[a], t.missing(i, act[1])[1])
                    v = self.load(i, at[a], act[1])
                    if how == "loop":
                        self.load(i, at[a], act[1])
                        self.load(i, at[a], act[1])
                    if how == "args":
                        self.out.append("args\t%d\t%d" % (env["x"][0], env["x"][-1]))
                except P as p:
                    if how != "catch":
                        raise
                    self.labels.add("caught")
                    v = ("caught", p)
                rs[a] = v
                self.use("%d.%d" % (i, a), v)
            self.out.append("L%d\t%s" % (i, "\t".join("%d" % x for x in env["x"])))
        if m["fault"] == "panic":
            self.labels.add("fault: panic")
            raise P(i, at["panic"], "std.panic(\"in %d\")" % i)
        kind = t.kind(i)
        if kind == "reexp":
            return rs[t.reexport(i)]
        return {"arr": ("arr", env["own"]), "fun": ("fun", env), "dict": ("dict", env), "imp": ("imp", env), "nil": ("nil",), "int": ("int", 1000 + i),
                "str": ("string", "str%d" % i), "err": ("err", "err%d" % i), "bool": ("bool", "true"), "empty": ("nil",)}[kind]

    def use(self, tag, v):
        k = v[0]
        if k == "arr":
            v[1].append(tag)
            self.out.append("%s\t%s" % (tag, arr(v[1])))
        elif k == "fun":
            e = v[1]
            e["count"] += 1
            e["x"][0] += 1
            self.out.append("%s\t[ \"fun%d\", %d, \"%s\", %d, %s ]" % (tag, e["i"], e["count"], tag, e["x"][0], arr(e["own"])))
        elif k == "imp":
            e = v[1]
            self.out.append("imp\t%s\t%d" % (tag, e["x"][0]))
            self.use(tag + "!", self.load(e["i"], e["at"]["imp"], self.t.mods[e["i"]]["imp"][0]))
            self.out.append("%s\timported" % tag)
        elif k == "dict":
            e = v[1]
            self.out.append("%s\t%s" % (tag, e["held"]))
            e["held"] = tag
            self.out.append("%s\t%s" % (tag, tag))
        elif k == "caught":
            self.out.append(("%s\terror\tcaught panic: " % tag, v[1]))
        elif k == "err":
            self.out.append("%s\terror\t%s" % (tag, v[1]))
        else:
            self.out.append("%s\t%s\t%s" % (tag, k, "nil" if k == "nil" else v[1]))


def arr(xs):
    return "[ %s ]" % ", ".join('"%s"' % x for x in xs)


def set_up(tree, stdin_main):
    root = tree.root
    b = lambda s: s.encode("latin-1")  # noqa: E731
    for d in DIRS:
        p = os.path.join(root, d)
        os.makedirs(b(os.path.join(p, "sub")), exist_ok=True)
        with open(b(os.path.join(p, "plain.txt")), "wb") as f:
            f.write(b"std.println(\"plain\")\n")
        os.symlink(b"nowhere", b(os.path.join(p, "dangling")))
    for i in range(len(tree.mods)):
        ls, _ = tree.source(i)
        text = b("".join(x + "\n" for x in ls))
        if i or not stdin_main:
            with open(b(tree.path(i)), "wb") as f:
                f.write(text)
        else:
            main = text
    for d, is_file, j in tree.links:
        p = os.path.join(root, d)
        if is_file:
            os.symlink(b(tree.path(j)), b(os.path.join(p, "lnk%d" % j)))
        else:
            os.symlink(b(os.path.join(root, tree.dir(j))), b(os.path.join(p, "ld%d" % j)))
    return main if stdin_main else b""


def matches(line, main_name, tree, prefix, p):
    """Is the line this panic's message?"""
    want = prefix + "Panic in %s (line %d, column " % (main_name if p.i == 0 else tree.path(p.i), p.line)
    end = "): " + p.msg
    if not (want + end).isascii():
        # A path may be displayed with replacements: compare what surrounds it.
        want = prefix + "Panic in "
        end = end if end.isascii() else ""
        return line.startswith(want) and line.endswith(end) and " (line %d, column " % p.line in line
    return line.startswith(want) and line.endswith(end)


def show(case):
    t = Tree(case, "/ROOT")
    return "start: %s\n" % case["start"] + "".join("--- %s\n%s\n" % (t.path(i), "\n".join(t.source(i)[0])) for i in range(len(t.mods)))


def evaluate(case, rt):
    d = rt.fresh()
    try:
        root = os.path.join(d, "r")
        os.mkdir(root)
        root = os.path.realpath(root)
        tree = Tree(case, root)
        start = case["start"]
        stdin = set_up(tree, start == "stdin")
        m = Model(tree)
        end = None
        try:
            m.run(0)
        except P as p:
            end = p
        cwd, args = {"root": (root, ["t.hsh"]), "dot": (root, ["./t.hsh"]), "parent": (d, ["r/t.hsh"]), "abs": (d, [tree.path(0)]), "inside": (os.path.join(root, "a"), ["../t.hsh"]),
                     "elsewhere": (rt.home, [tree.path(0)]), "stdin": (root, [])}[start]
        o = rt.exec(args, cwd, stdin=stdin)
        main_name = args[0] if args else "<stdin>"
    finally:
        rt.drop(d)
    labels = set(m.labels)
    labels.add("main on stdin" if start == "stdin" else "started elsewhere" if start in ("parent", "abs", "inside", "elsewhere") else "started there")
    if end:
        labels.add("uncaught")
    if case.get("many"):
        labels.add("many modules")
    labels = sorted(labels)
    nt = any(x in labels for x in ("shared module", "nested", "caught", "uncaught"))
    lines = o.out.decode("latin-1").split("\n")
    why = None
    if o.hang:
        why = "hang"
    elif o.rc != (127 if end else 0):
        why = "exit status %r" % o.rc
    elif lines[-1] != "":
        why = "output ends within a line"
    else:
        lines.pop()
        for k, e in enumerate(m.out):
            a = lines[k] if k < len(lines) else None
            if a is None or not (a == e if isinstance(e, str) else matches(a, main_name, tree, e[0], e[1])):
                why = "line %d of the output: %r instead of %r" % (k + 1, a, e if isinstance(e, str) else [e[0], e[1].i, e[1].line, e[1].msg])
                break
        else:
            if len(lines) > len(m.out):
                why = "unexpected output %r" % lines[len(m.out)]
    if not why and end:
        last = o.err.decode("latin-1").rstrip("\n").split("\n")[-1]
        if not matches(last, main_name, tree, "", end):
            why = "panic message %r instead of %r" % (last, [end.i, end.line, end.msg])
    if why:
        return fail({"why": why, "modules": show(case), "expected": [e if isinstance(e, str) else repr(e) for e in m.out][-30:], "actual": o.brief()}, labels=labels, nontrivial=nt, hang=o.hang)
    return Verdict(labels=labels, nontrivial=nt)
