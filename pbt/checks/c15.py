"""Generated directory trees and patterns against a component-wise matcher written independently (regular expressions over the listed tree)."""
import os
import re

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.syntax import str_lit

COUNTS = {"quick": 6500, "thorough": 220000}
RULE = ("a case is a directory tree and a script of up to 8 commands, redirections, environment assignments or std.glob "
        "calls with patterns; non-trivial: some pattern matches at least one path and some existing path does not match; "
        "each pattern is one evaluation")
ASSUMPTIONS = ["file names are valid UTF-8; two adjacent stars are not generated",
               "* and % also match leading dots; a pattern ending in / matches directories only, shown without it",
               "slashes are not doubled right after a leading ./ (the matcher finds nothing there)"]
SAMPLE_LABELS = ("no match", "several", "variable in pattern", "special characters", "home", "absolute", "deep",
                 "created meanwhile", "std.glob", "many matches", "redirection", "special file")

CHARS = ["a", "b", "c", "A", "1", ".", "-", "_", " ", "é", "€", "[", "]", "{", "*", "?", "%", "~", "!", "^", "$", "#", "'", "\"", "\\",
         "\n", "😀", ",", "="]
name = st.one_of(
    st.sampled_from(["a", "b", "ab", "ba", "aa", "abc", "A", "a.b", "b.a", ".a", ".ab", "a.txt", "b.txt", "ab.txt", "x1", "x2", "x10"]),
    st.lists(st.sampled_from(CHARS[:6] * 3 + CHARS), min_size=1, max_size=4).map("".join)
).filter(lambda s: s not in (".", "..", "t.hsh"))
paths = st.lists(st.lists(name, min_size=1, max_size=3), min_size=1, max_size=12)


def unquotable(c):
    return c in "#'\"><?;$=}\\*%|~" or c in " \t\n\r\x0c"


@st.composite
def pattern(draw, tree, names):
    """Components of parts: ["*"], ["%"], ["t", style, text], ["v", name]; from a path of the tree, mostly."""
    base = draw(st.sampled_from(tree)) if draw(st.integers(0, 9)) < 8 else [draw(name)]
    comps = []
    for c in base[:draw(st.integers(1, 3))]:
        parts = []
        k = draw(st.integers(0, 6))
        if k == 0:
            parts.append(["t", draw(st.sampled_from("us")), c])
        elif k == 1:
            parts.append(["*"])
        else:
            i = 0
            while i < len(c):
                w = draw(st.integers(0, 7))
                n = draw(st.integers(0, 2))
                if w < 2:
                    if not parts or parts[-1] != ["*"]:
                        parts.append(["*"])
                    i += n
                elif w < 4:
                    parts.append(["%"])
                    i += 1
                elif w == 4 and names:
                    parts.append(["v", draw(st.sampled_from(names))])
                    i += n
                else:
                    parts.append(["t", draw(st.sampled_from("usd")), c[i:i + 1 + n]])
                    i += 1 + n
            if draw(st.integers(0, 4)) == 0 and parts[-1] != ["*"]:
                parts.append(["*"])
        comps.append(parts)
    pre = draw(st.sampled_from(["", "", "", "", "", "", "./", "abs", "home", "up"]))
    # Slashes may be doubled: after the prefix (1), between components (2).
    dbl = draw(st.sampled_from([0] * 8 + [1, 2, 2, 3])) if pre != "./" else 0
    return {"pre": pre, "comps": comps, "slash": draw(st.integers(0, 11)) == 0, "dbl": dbl if pre else dbl & 2}


@st.composite
def cases(draw):
    tree = draw(paths)
    if draw(st.integers(0, 19)) == 0:
        # A directory of many files, or many directories with one file each.
        d, n = draw(st.sampled_from("ab")), draw(st.sampled_from([20, 31, 32, 33, 34, 63, 64, 65, 66, 99, 101, 127, 129, 257, 300]))
        more = [[d, "f%d" % i] for i in range(n)] if draw(st.integers(0, 2)) else [["d%d" % i, "f"] for i in range(n)]
        tree = more + [p for p in tree if p[0] != d and not p[0].startswith("d")]
    names = ["v0", "v1"][:draw(st.integers(0, 2))]
    vs = []
    for n in names:
        k = draw(st.integers(0, 5))
        if k == 0:
            vs.append([n, ""])
        elif k < 3:
            vs.append([n, draw(st.sampled_from(CHARS))])
        elif k == 3:
            p = draw(st.sampled_from(tree))
            vs.append([n, draw(st.sampled_from(p))])
        elif k == 4:
            vs.append([n, draw(st.sampled_from(["[ab]", "*", "?", "**", "[!a]", "a*", "%", "~", "[", "]"]))])
        else:
            vs.append([n, [draw(st.sampled_from(CHARS + ["ab"])) for _ in range(draw(st.integers(1, 3)))]])
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 19))
        if k == 0:
            ops.append(["touch", [draw(name)]])
        elif k == 1:
            ops.append(["redirect", draw(pattern(tree, names))])
        elif k == 2:
            ops.append(["env", draw(pattern(tree, names))])
        elif k < 7:
            ops.append(["glob", draw(pattern(tree, []))])
        else:
            ops.append(["args", draw(st.lists(pattern(tree, names), min_size=1, max_size=3)),
                        draw(st.sampled_from(["", "", "$", "exec"]))])
    special = draw(st.lists(st.tuples(name, st.sampled_from(["dangling", "fifo", "loop", "socket", "noperm"])).map(list), max_size=2))\
        if draw(st.integers(0, 3)) == 0 else []
    rn = draw(st.sampled_from(["w"] * 6 + ["w w", "w*", "[w]", "w?", "w%", "{w}", "é", "w'", "~", "$w", "-w", ".w", "w\\", "[!a]", "[a-z]"]))
    home = draw(st.sampled_from([""] * 6 + ["/", "//", "/.", "/./", "//.//", "/../" + rn]))
    return {"rn": rn, "home": home, "tree": tree, "special": special, "links": draw(st.integers(0, 5)) == 0, "vars": vs, "ops": ops,
            "joined": draw(st.integers(0, 3)) == 0}


def strategy(tier):
    return cases()


# -- the model -----------------------------------------------------------------------------------
class Tree:
    """Directories as dicts, files as None."""

    def __init__(self, case):
        self.root = {"t.hsh": None}
        for p in case["tree"]:
            self.add(p)
        if case["links"]:
            self.root.setdefault("lnk", None)
        # Entries that are neither files nor directories, or cannot be opened.
        self.special = {}
        for n, kind in case.get("special", []):
            if n not in self.root and n != "lnk":
                self.root[n] = None
                self.special[n] = kind

    def add(self, path):
        d = self.root
        for c in path[:-1]:
            if c not in d:
                d[c] = {}
            if d[c] is None:
                return
            d = d[c]
        d.setdefault(path[-1], None)


def expand_comp(parts, env):
    """Regular expressions of a component (several if arrays are involved), with whether it has a wildcard and the
    raw text if not."""
    alts = [[("", "", False)]]
    outs = [("", "", False)]
    for p in parts:
        if p[0] == "*":
            outs = [(r + "(?:.*)", t + "*", True) for r, t, w in outs]
        elif p[0] == "%":
            outs = [(r + "(?:.)", t + "?", True) for r, t, w in outs]
        elif p[0] == "t":
            outs = [(r + re.escape(p[2]), t + p[2], w) for r, t, w in outs]
        else:
            v = env[p[1]]
            if isinstance(v, list):
                outs = [(r + re.escape(x), t + x, w) for x in v for r, t, w in outs]
            else:
                outs = [(r + re.escape(v), t + v, w) for r, t, w in outs]
    del alts
    return outs


def words_of(pat, env):
    """All component lists a pattern denotes: arrays multiply it, later ones major."""
    combos = [[]]
    for parts in pat["comps"]:
        outs = expand_comp(parts, env)
        combos = [c + [o] for o in outs for c in combos]
    return combos


def wild(combo):
    return any(w for _, _, w in combo)


def match(tree, combo, dirs_only, special=()):
    res = []
    if special and not combo[-1][2]:
        raise Skip()            # whether a name without wildcards "exists" is up to the system

    def go(d, i, acc):
        rx = re.compile(combo[i][0], re.S)
        # A component that spells one name (no wildcard) is looked up.
        for n in sorted(d, key=lambda s: s.encode()):
            if rx.fullmatch(n):
                sub = d[n]
                if i + 1 < len(combo):
                    if sub is not None:
                        go(sub, i + 1, acc + [n])
                elif not dirs_only or sub is not None:
                    res.append(acc + [n])
    if combo and all("/" not in t for _, t, _ in combo):
        go(tree, 0, [])
    return res


class Skip(Exception):
    pass


def results(pat, env, tree, abs_root, home, special=(), rn="w"):
    """Arguments a pattern denotes."""
    out = []
    for combo in words_of(pat, env):
        text = ("//" if pat.get("dbl", 0) & 2 else "/").join(t for _, t, _ in combo)
        if any(t == "" or t in (".", "..") for _, t, _ in combo):
            raise Skip()
        if any(t[:1] == "." and (re.fullmatch(r, ".") or re.fullmatch(r, "..")) for r, t, _ in combo):
            raise Skip()        # whether .* stands for the special entries is up to the system's habits
        star = re.sub(r"\(\?:\.\*\)(\(\?:\.\*\))+", "STARS", "/".join(r for r, _, _ in combo))
        if "STARS" in star:
            raise Skip()
        pre = {"": "", "./": "./", "abs": abs_root + "/", "home": home + ("" if home.endswith("/") else "/"), "up": "../%s/" % rn}[pat["pre"]]
        if not wild(combo):
            out.append(pre + ("/" if pat.get("dbl", 0) & 1 else "") + text + ("/" if pat["slash"] else ""))
            continue
        if pat["pre"] == "home" and home != abs_root:
            raise Skip()        # what a match is called if the home directory is not spelt plainly
        shown = {"": "./", "./": "./", "abs": abs_root + "/", "home": home + "/", "up": "./../%s/" % rn}[pat["pre"]]
        for m in match(tree, combo, pat["slash"], special):
            out.append(shown + "/".join(m))
    return out


def quote(style, t):
    if style == "u" and (not t or any(unquotable(c) for c in t)):
        style = "s"
    if style == "u":
        return t
    if style == "s":
        return "'" + t.replace("\\", "\\\\").replace("'", "\\'") + "'"
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$") + '"'


def source(pat, rn="w"):
    s = {"": "", "./": "./", "abs": "$root/", "home": "~/", "up": "../%s/" % quote("u", rn)}[pat["pre"]]
    if pat.get("dbl", 0) & 1:
        s += "/"
    for i, parts in enumerate(pat["comps"]):
        if i:
            s += "//" if pat.get("dbl", 0) & 2 else "/"
        for p in parts:
            s += p[0] if p[0] in "*%" else quote(p[1], p[2]) if p[0] == "t" else "${%s}" % p[1]
    return s + ("/" if pat["slash"] else "")


def glob_esc(t):
    return re.sub(r"([*?\[\]])", r"[\1]", t)


def glob_source(pat, rn="w"):
    """The same pattern in the syntax of std.glob."""
    esc = glob_esc
    s = {"": "", "./": "./", "abs": "@ROOT@/", "home": "@HOME@/", "up": "../%s/" % esc(rn)}[pat["pre"]]
    if pat.get("dbl", 0) & 1:
        s += "/"
    for i, parts in enumerate(pat["comps"]):
        if i:
            s += "//" if pat.get("dbl", 0) & 2 else "/"
        for p in parts:
            s += {"*": "*", "%": "?"}.get(p[0]) or esc(p[2])
    return s + ("/" if pat["slash"] else "")


def hx(s):
    return s.encode().hex() or "-"


def build(case, root, home):
    env = dict((n, v) for n, v in case["vars"])
    rn = case.get("rn", "w")
    tree = Tree(case)
    if case["links"]:
        tree.root["lnk"] = tree.root.get(case["tree"][0][0]) if isinstance(tree.root.get(case["tree"][0][0]), dict) else None
    lit = lambda s: str_lit(s.encode().decode("latin-1"))  # noqa: E731
    text = "let root = %s\n" % lit(root)
    for n, v in case["vars"]:
        text += "let %s = %s\n" % (n, lit(v) if isinstance(v, str) else "[%s]" % ", ".join(map(lit, v)))
    expected, labels, n, files = "", set(), 0, {}
    hit = miss = False
    enc = lambda s: s.encode().decode("latin-1")  # noqa: E731
    text_join = []
    def do(op):
        nonlocal text, expected, n, hit, miss
        if op[0] == "touch":
            p = op[1][0]
            if tree.root.get(p, 0) == 0:
                tree.root[p] = None
                labels.add("created meanwhile")
                cmd = "hx log %s 30" % enc(quote("s", p))
                files[p] = b"0\n"
                if case["joined"]:
                    text_join.append(cmd)
                else:
                    text += "{ %s }\n" % cmd
            return
        n += 1
        if op[0] == "args":
            cmd = "hx args @"
            got = ["@"]
            for pat in op[1]:
                r = results(pat, env, tree.root, root, home, tree.special, rn)
                note(pat, r, labels, env)
                hit, miss = hit or bool(r), True
                got += r
                cmd += " " + enc(source(pat, rn))
            expected += "".join(hx(a) + "\n" for a in got)
            if op[2] == "$":
                text = flush(text, text_join)
                text += "std.print(${ %s }.stdout)\n" % cmd
            elif op[2] == "exec":
                text_join.append("spawn0 hx hx" + cmd[2:])
            else:
                text_join.append(cmd)
            if not case["joined"]:
                text = flush(text, text_join)
            return
        text = flush(text, text_join)
        if op[0] == "glob":
            r = results(op[1], env, tree.root, root, home, tree.special, rn)
            note(op[1], r, labels, env)
            labels.add("std.glob")
            r = [x[2:] if x.startswith("./") else x for x in r]
            src = glob_source(op[1], rn)
            src = src.replace("@ROOT@", glob_esc(root)).replace("@HOME@", glob_esc(home))
            if not any(w for c in words_of(op[1], env) for _, _, w in c):
                raise Skip()
            text += "for p in std.iter(std.glob(%s)) do std.println(std.hex.encode(p)) end\nstd.println(\"-\")\n" % lit(src)
            expected += "".join(hx(x) + "\n" for x in r) + "-\n"
            hit, miss = hit or bool(r), True
            return
        if op[0] == "env" and op[1]["pre"] == "home":
            raise Skip()        # not leading there
        r = results(op[1], env, tree.root, root, home, tree.special, rn)
        labels.add("redirection" if op[0] == "redirect" else "environment")
        combos = words_of(op[1], env)
        one = len(combos) == 1 and len(r) == 1
        if one and op[0] == "redirect":
            if not wild(combos[0]):
                raise Skip()
            # The target must be a file that may be written.
            full = os.path.normpath(os.path.join(root, r[0]))
            rel = os.path.relpath(full, root)
            d = tree.root
            for c in rel.split("/"):
                d = d[c] if isinstance(d, dict) else None
            if d is not None or rel == "t.hsh" or rel in tree.special or case["links"]:
                raise Skip()
            text += "{ hx out 4f > %s }\n" % enc(source(op[1], rn))
            files[rel] = b"O"
        elif one:
            text += "{ GG=%s hx env GG }\n" % enc(source(op[1], rn))
            expected += hx(r[0]) + "\n"
        else:
            # Exactly one is required.
            labels.add("not exactly one")
            cmd = "hx out 4f > %s" if op[0] == "redirect" else "GG=%s hx env GG"
            text += "std.println(std.catch(function () { "
            # Counted when the command is made, or when its pattern is resolved (then at the place of the program).
            at, what, items = len(text) + (cmd.index("%") if op[0] == "redirect" else 0), "redirection" if op[0] == "redirect" else "env", len(combos)
            src = enc(source(op[1], rn))
            if len(combos) == 1:
                items = len(r)
                at = len(text) + (0 if op[0] == "redirect" else cmd.index(" hx") - 2 + len(src) + 1)
                what += " variable" if op[0] == "env" else ""
            before = (text + cmd % src)[:at]
            text += cmd % src + " } end).description)\n"
            expected += "caught panic: Panic in t.hsh (line %d, column %d): %s expansion resulted in %d items\n" % (
                before.count("\n") + 1, at - (before.rfind("\n") + 1), what, items)

    for op in case["ops"]:
        saved = text, expected, n, list(text_join), dict(files), set(labels)
        try:
            do(op)
        except Skip:
            text, expected, n = saved[:3]
            text_join[:] = saved[3]
            files.clear()
            files.update(saved[4])
            labels.clear()
            labels.update(saved[5])
    text = flush(text, text_join)
    return text, expected.encode(), labels, n, files, hit and miss, tree


def flush(text, cmds):
    if cmds:
        text += "{ " + " ; ".join(cmds) + " }\n"
        del cmds[:]
    return text


def note(pat, r, labels, env):
    labels.add("no match" if not r else "several" if len(r) > 1 else "one match")
    if pat["pre"] == "home":
        labels.add("home")
    if pat["pre"] == "abs":
        labels.add("absolute")
    if len(pat["comps"]) > 1:
        labels.add("deep")
    if pat.get("dbl"):
        labels.add("doubled slash")
    if len(r) > 30:
        labels.add("many matches")
    for parts in pat["comps"]:
        for p in parts:
            if p[0] == "v":
                labels.add("variable in pattern")
            elif p[0] == "t" and re.search(r"[*?%\[\]]", p[2]):
                labels.add("special characters")


def show(case):
    try:
        return repr(case["tree"]) + "\n" + build(case, "/ROOT/w", "/ROOT/w" + case.get("home", ""))[0].encode("latin-1").decode("utf-8", "replace")
    except Skip:
        return repr(case)


def mktree(d, node, special, top=True):
    for n, sub in node.items():
        p = os.path.join(d, n)
        kind = special.get(n) if top else None
        if kind in ("dangling", "loop"):
            os.symlink("no/where" if kind == "dangling" else n, p)
            continue
        if kind == "fifo":
            os.mkfifo(p)
            continue
        if kind == "socket":
            import socket
            here = os.open(d, os.O_RDONLY)
            k = socket.socket(socket.AF_UNIX)
            k.bind("/proc/self/fd/%d/%s" % (here, n))
            k.close()
            os.close(here)
            continue
        if top and n in ("t.hsh", "lnk"):
            continue
        if sub is None:
            with open(p, "wb"):
                pass
            if kind:
                os.chmod(p, 0)
        else:
            os.mkdir(p)
            mktree(p, sub, special, False)


def evaluate(case, rt):
    base = rt.fresh()
    try:
        root = os.path.join(base, case.get("rn", "w"))
        os.mkdir(root)
        first = Tree(case)
        mktree(root, first.root, first.special)
        if case["links"]:
            if "lnk" in [p[0] for p in case["tree"]]:
                return Verdict(labels=["skipped"], nontrivial=False)
            # A link to a directory is followed, one to a file is a file.
            os.symlink(case["tree"][0][0], os.path.join(root, "lnk"))
        try:
            text, expected, labels, n, files, nt, tree = build(case, root, root + case.get("home", ""))
        except Skip:
            return Verdict(labels=["skipped: outside of the modelled patterns"], nontrivial=False)
        if case["links"]:
            labels.add("symbolic link")
        if first.special:
            labels.add("special file")
        labels = sorted(labels)
        o = rt.script(text.encode("latin-1"), cwd=root, env={"HOME": root + case.get("home", "")})
        why = None
        if o.hang:
            why = "hang"
        elif o.rc != 0:
            why = "exit status %r" % o.rc
        elif o.out != expected:
            why = "expansion differs"
        elif o.err:
            why = "unexpected standard error"
        else:
            for f, c in files.items():
                with open(os.path.join(root, f), "rb") as fh:
                    if fh.read() != c:
                        why = "wrong content of %r" % f
        if why:
            return fail({"why": why, "script": text, "tree": case["tree"], "expected": expected.decode(),
                         "actual": o.brief()}, labels=labels, nontrivial=nt, hang=o.hang, n=n)
        return Verdict(labels=labels, nontrivial=nt, n=max(1, n))
    finally:
        rt.drop(base)
