"""Generated command words (literal text in all quoting styles, variables, arrays) against the argument vector a model of word expansion denotes, as received by a real process."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import vals as V
from lang import words as W
from lang.syntax import render
from lang.values import Arr

COUNTS = {"quick": 5500, "thorough": 250000}
RULE = ("a case is a script of 1 to 4 command blocks whose commands print the arguments they receive; non-trivial: some "
        "argument uses quotes, escapes or a variable; each command is one evaluation")
ASSUMPTIONS = ["an empty array contributes nothing to a word, and a word with nothing in it is no argument",
               "an argument with a NUL byte cannot be passed to any process: the command counts as not started"]
SAMPLE_LABELS = ("array", "no argument form", "empty argument", "non-UTF-8", "product of arrays", "large")
NAMES = ["a", "b", "c", "x1", "long_name"]

strings = st.one_of(
    V.raw_strings.filter(lambda s: "\0" not in s), V.raw_strings.filter(lambda s: "\0" not in s),
    st.sampled_from(["*", "%", "?", "[ab]", "~", "~/x", "$x", "${x}", "a b", " a", "a ", "\"q\"", "'q'", "a;b", "a|b", "> f",
                     "# c", "a\\b", "\\n", "}", "{x}", "-n", "--", "=", "A=b", "\xff\xfe", "a\tb\n", "&", "2>1"]),
)
str_e = strings.map(lambda s: ["str", s])
scalar = st.one_of(str_e, str_e, str_e, V.int_e, V.float_e, V.bool_e, V.nil_e,
                   st.integers(1, 255).map(lambda b: ["byte", b]))
array = st.lists(scalar, max_size=4).map(lambda xs: ["arr", xs])
bad = st.one_of(
    st.just(["dict", []]), st.just(["dict", [["k", ["int", 1]]]]), st.just(V.FUN_E), st.just(["id", "std"]).map(lambda e: ["dot", e, "len"]),
    scalar.map(lambda v: ["call", ["dot", ["id", "std"], "error"], [["str", "e"], v]]),
    st.lists(scalar, min_size=0, max_size=2).map(lambda xs: ["arr", xs + [["arr", []]]]),
    st.builds(lambda a, b: ["arr", [a, ["dict", []], b]], scalar, scalar),
)
big = st.one_of(
    st.integers(200, 3000).map(lambda n: ["arr", [["int", i] for i in range(n)]]),
    st.builds(lambda n, c: ["str", c * n], st.one_of(st.integers(200, 43000), st.sampled_from([255, 256, 257, 1025, 4096, 4097, 8193, 16385, 32767, 32768, 32769, 43600])), st.sampled_from(["x", "ab ", "\xe9"])),
)
value = st.integers(0, 9).flatmap(lambda k: array if k < 4 else scalar)


@st.composite
def cases(draw):
    names = NAMES[:draw(st.integers(1, 5))]
    vs = [[n, draw(value)] for n in names]
    k = draw(st.integers(0, 19))
    if k == 0:
        vs[draw(st.integers(0, len(vs) - 1))][1] = draw(bad)
    elif k == 1:
        vs[draw(st.integers(0, len(vs) - 1))][1] = draw(big)
    elif k == 2:
        vs[draw(st.integers(0, len(vs) - 1))][1] = ["str", draw(st.sampled_from(["\0", "a\0b", "\0z"]))]
    word = W.words(names)
    if draw(st.integers(0, 7)) == 0:
        # Where a word must stand for one item.
        where = draw(st.sampled_from(sorted(SINGLE)))
        w = draw(word)
        k = draw(st.integers(0, 3))
        if k == 0:
            w = [["v", draw(st.sampled_from(names)), True, False]]
        elif k == 1:
            w = [["v", draw(st.sampled_from(names)), False, True], ["v", draw(st.sampled_from(names)), True, False]]
        return {"vars": vs, "single": where, "word": w, "env": draw(st.integers(0, 3)) == 0,
                "kind": draw(st.sampled_from(["", "", "$", "&"])) if where not in BUILTINS else "", "sep": draw(st.sampled_from([" ", "  ", "\n", "\t"]))}
    blocks = []
    for _ in range(draw(st.integers(1, 4))):
        cmds = draw(st.lists(st.lists(word, max_size=6), min_size=1, max_size=3))
        blocks.append({
            "kind": draw(st.sampled_from(["", "", "", "", "$", "$", "$", "&", "&", "exec"])),
            "pipe": draw(st.integers(0, 4)) == 0,
            "prog": draw(st.sampled_from(["plain", "plain", "plain", "quoted", "parts", "var", "array1", "env"])),
            "sep": draw(st.sampled_from([" ", " ", "  ", "\t", "\n", " # c \"x'\n", "\r\n"])),
            "scope": draw(st.sampled_from(["top", "top", "top", "closure", "param", "loop"])),
            "cmds": cmds})
    return {"vars": vs, "blocks": blocks}


def strategy(tier):
    return cases()


# Where a single item is required: source before and after the word, and what panics call it.
SINGLE = {"program": ("", " args", "program"), "env": ("GG=", " hx env GG", "env"), "env2": ("AA=1 GG=", " hx env AA GG", "env"),
          ">": ("hx out '61' > ", "", "redirection"), ">>": ("hx out '61' >> ", "", "redirection"), "2>": ("hx err '61' 2> ", "", "redirection"),
          "<": ("hx cat < ", "", "redirection"), "<<": ("hx cat << ", "", "redirection"), "stage": ("hx exit '0' | hx cat << ", "", "redirection"),
          "cd": ("cd ", "", "argument"), "exec": ("exec ", "", "argument"), "exec0": ("exec0 ", "", "argument"), "spawn0": ("spawn0 ", "", "argument")}
BUILTINS = ("cd", "exec", "exec0", "spawn0")


def build_single(case):
    """Script, the offset of the word or of the variable that is to blame (None if nothing is), the message, and the item."""
    decls = render([["let", n, e] for n, e in case["vars"]]).text.decode("latin-1")
    env = {n: const(e) for n, e in case["vars"]}
    where, w = case["single"], case["word"]
    pre, post, what = SINGLE[where]
    if where in (">", ">>", "2>", "<") and not all(p[0] == "v" and isinstance(env[p[1]], Arr) and not env[p[1]].items for p in w):
        # Nothing but files of that name is touched.
        w = [["t", "u", [["o", "o"], ["_", "_"]]]] + w
    text = decls + "let r = %s{ " % case["kind"]
    if case["env"]:
        text += "hx out 7a ;" + case["sep"]
    text += pre
    at = len(text)
    src, dollars = W.source(w, at)
    text += src + post + " }\n"
    if case["kind"] == "&":
        text += "r = r.join()\n"
    if case["kind"] == "$":
        text += "std.print(if std.type(r) == \"error\" then r.context.stdout else r.stdout end)\n"
    text += "std.println(std.type(r))\n"
    try:
        items = W.expand(w, env)
    except W.NoForm as e:
        return text, dollars[e.index][0], None, None
    if where in BUILTINS:
        # How many arguments are needed; the builtin itself is to blame.
        if where != "cd" and len(items) >= (1 if where == "exec" else 2):
            return text, None, None, items[0]
        if len(items) != 1 or where != "cd":
            what = "arg0" if items and where != "cd" else what
            return text, at - len(pre), "%s expansion resulted in %d items" % (what, len(items) if where == "cd" else 0), None
        return text, None, None, items[0]
    if len(items) != 1:
        # (An assignment begins with its name.)
        return text, at - 3 if what == "env" else at, "%s expansion resulted in %d items" % (what, len(items)), None
    return text, None, None, items[0]


def evaluate_single(case, rt):
    import os
    try:
        text, at, msg, item = build_single(case)
    except W.TooBig:
        return Verdict(labels=["skipped: larger than a command line may be"], nontrivial=False)
    where = case["single"]
    labels = ["single item", "single item: " + SINGLE[where][2]]
    ok = b"dict\n" if case["kind"] == "$" else b"nil\n"
    first = b"z" if case["env"] else b""
    files = {}
    d = rt.fresh()
    try:
        if at is None:
            nul = b"\0" in item
            named = where in (">", ">>", "2>", "<")
            if where == "<" and not nul and b"/" not in item and len(item) < 256:
                with open(os.path.join(d.encode(), item), "wb") as f:
                    f.write(b"in the file")
            if where == "cd":
                want = first + (ok if not nul and os.path.isdir(os.path.join(d.encode(), item)) and item else b"error\n")
            elif where == "program" or where in BUILTINS:
                want = first + b"error\n"
            elif nul and where not in ("<<", "stage"):
                want = first + b"error\n"
            elif where in ("<<", "stage"):
                want = first + item + b"\n" + ok
            elif named and (b"/" in item or len(item) > 255):
                want = first + b"error\n"
            elif where == "<":
                want = first + b"in the file" + ok
            elif where == "env":
                want = first + (item.hex().encode() or b"-") + b"\n" + ok
            elif where == "env2":
                want = first + b"31\n" + (item.hex().encode() or b"-") + b"\n" + ok
            else:
                want = first + ok
                files = {item: b"a"}
            if item in (b"hx", b"hy", b"./t.hsh", b"t.hsh") or len(item) > 100000:
                return Verdict(labels=["skipped"], nontrivial=False)
        else:
            labels.append("not one item" if msg else "no argument form")
            want = first if msg and where in BUILTINS else b""
        o = rt.script(text.encode("latin-1"), cwd=d)
        why = None
        if o.hang:
            why = "hang"
        elif o.rc != (0 if at is None else 127):
            why = "exit status %r" % o.rc
        elif o.out != want:
            why = "standard output differs"
        elif at is not None:
            before = text[:at].encode("latin-1")
            head = "Panic in t.hsh (line %d, column %d): %s" % (before.count(b"\n") + 1, len(before) - (before.rfind(b"\n") + 1), msg or "value (")
            tail = (msg or ") has unexpected type, expected nil, bool, int, float, byte or string") + "\n"
            if not o.err.startswith(head.encode()) or not o.err.endswith(tail.encode()):
                why = "expected a panic: " + head
        elif o.err:
            why = "unexpected standard error"
        if not why and files:
            got = {f: open(os.path.join(d.encode(), f), "rb").read() for f in os.listdir(d.encode()) if f.startswith(b"o_")}
            if got != files:
                why = "files %r instead of %r" % (got, files)
        if why:
            return fail({"why": why, "script": text, "expected": want.decode("latin-1"), "actual": o.brief()}, labels=labels, hang=o.hang)
        return Verdict(labels=labels)
    finally:
        rt.drop(d)


PROG = {"plain": "hx", "quoted": "'hx'", "parts": "h\"x\"''", "var": "$hx", "array1": "${hxs}", "env": "ZZ=1 \"hx\""}


def build(case):
    """Script text (latin-1) and what it should do."""
    decls = render([["let", n, e] for n, e in case["vars"]]).text.decode("latin-1")
    env = {n: const(e) for n, e in case["vars"]}
    text = decls + "let hx = \"hx\"\n" + "let hxs = [\"hx\"]\n"
    expected, panic, labels, n = [], None, set(), 0
    for i, b in enumerate(case["blocks"]):
        kind = b["kind"]
        scope = b["scope"] if kind != "exec" else "top"
        params = [x for x, _ in case["vars"]] + ["hx", "hxs"]
        if scope == "closure":
            text += "let blk%d = (function () let r = nil\nr = " % i
        elif scope == "param":
            text += "let blk%d = (function (%s) let r = nil\nr = " % (i, ", ".join(params))
        elif scope == "loop":
            text += "let blk%d = nil\nfor once in std.range(0, 1, 1) do\nblk%d = " % (i, i)
        else:
            text += "let blk%d = " % i
        text += {"": "{", "$": "${", "&": "&{", "exec": "{"}[kind] + " "
        cmds = b["cmds"]
        outs, bad_block = [], None
        for j, ws in enumerate(cmds):
            n += 1
            if kind == "exec" and j == len(cmds) - 1:
                text += "exec hx"
            else:
                text += PROG[b["prog"]]
            text += " %s @%d" % ("argsin" if b["pipe"] and kind != "exec" else "args", j)
            args = [b"@%d" % j]
            for w in ws:
                text += b["sep"]
                src, dollars = W.source(w, len(text))
                if w[0][0] == "v":
                    labels.add("variable")
                text += src
                if bad_block is None:
                    try:
                        got = W.expand(w, env)
                        args += got
                        if sum(map(len, args)) > 500000 or len(args) > 10000:
                            raise W.TooBig()
                        if b"" in got:
                            labels.add("empty argument")
                        if len(got) > 1:
                            labels.add("array")
                            if sum(1 for p in w if p[0] == "v" and isinstance(env[p[1]], Arr)) > 1:
                                labels.add("product of arrays")
                        if any(max(g, default=0) > 127 for g in got):
                            labels.add("non-UTF-8")
                        if sum(map(len, got)) + len(got) > 4000:
                            labels.add("large")
                        if not got:
                            labels.add("no argument")
                    except W.NoForm as e:
                        bad_block = dollars[e.index][0]
            outs.append(args)
            # A comment separator: the next token follows on a line of its own.
            if j + 1 < len(cmds):
                text += b["sep"] + ("|" if b["pipe"] and kind != "exec" else ";") + " "
        text += b["sep"] + "}\n"
        if scope == "closure":
            text += "r end)()\n"
        elif scope == "param":
            text += "r end)(%s)\n" % ", ".join(params)
        elif scope == "loop":
            text += "end\n"
        if kind == "&":
            text += "blk%d = blk%d.join()\n" % (i, i)
        if bad_block is not None:
            labels.add("no argument form")
            panic = bad_block
            break
        res = b""
        failed = False
        for j, args in enumerate(outs):
            if any(b"\0" in a for a in args):
                labels.add("NUL")
                failed = True
                if not b["pipe"] or kind == "exec":
                    break
                # What precedes a stage that did not start is lost.
                res = b""
            else:
                res += b"".join((a.hex().encode() or b"-") + b"\n" for a in args)
        if kind == "$":
            text += "std.print(if std.type(blk%d) == \"error\" then blk%d.context.stdout else blk%d.stdout end)\n" % (i, i, i)
        text += "std.println(std.type(blk%d))\n" % i
        if kind == "exec" and not failed:
            expected.append(res)
            labels.add("exec")
            return text, b"".join(expected), None, labels, n
        res += b"error\n" if failed else b"dict\n" if kind == "$" else b"nil\n"
        expected.append(res)
    return text, b"".join(expected), panic, labels, n


def const(e):
    """Value of a constant expression."""
    from lang.values import Byte, Dct, Err
    import math
    k = e[0]
    if k == "str":
        return e[1].encode("latin-1")
    if k == "int":
        return e[1]
    if k == "float":
        return float(e[1])
    if k == "nil":
        return None
    if k in ("true", "false"):
        return k == "true"
    if k == "byte":
        return Byte(e[1])
    if k == "arr":
        return Arr([const(x) for x in e[1]])
    if k == "un" and e[1] == "-":
        return -const(e[2])
    if k == "bin":
        a, b = const(e[2]), const(e[3])
        if e[1] == "-":
            return a - b
        return math.nan
    if k == "call" and e[1][2] == "float":
        return float(e[2][0][1])
    if k == "dict":
        return Dct()
    if k == "call":
        return Err("", None)
    if k in ("func", "dot"):
        return Err
    raise AssertionError(e)


def show(case):
    if "single" in case:
        return build_single(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")
    return build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    if "single" in case:
        return evaluate_single(case, rt)
    try:
        text, expected, panic, labels, n = build(case)
    except W.TooBig:
        return Verdict(labels=["skipped: larger than a command line may be"], nontrivial=False)
    labels = sorted(labels)
    nt = any(p[0] == "v" or p[1] != "u" or any(len(c[0]) > 1 for c in p[2])
             for b in case["blocks"] for c in b["cmds"] for w in c for p in w)
    o = rt.script(text.encode("latin-1"))
    want_rc = 127 if panic is not None else 0
    why = None
    if o.hang:
        why = "hang"
    elif o.rc != want_rc:
        why = "exit status %r instead of %r" % (o.rc, want_rc)
    elif o.out != expected:
        why = "arguments differ"
    elif panic is None and o.err:
        why = "unexpected standard error"
    elif panic is not None:
        before = text[:panic].encode("latin-1")
        line = before.count(b"\n") + 1
        col = len(before) - (before.rfind(b"\n") + 1)
        head = b"Panic in t.hsh (line %d, column %d): value (" % (line, col)
        tail = b") has unexpected type, expected nil, bool, int, float, byte or string\n"
        if not o.err.startswith(head) or not o.err.endswith(tail):
            why = "expected a panic at line %d, column %d" % (line, col)
    if why:
        return fail({"why": why, "script": text, "expected": expected.decode("latin-1")[-1500:], "actual": o.brief()},
                    labels=labels, nontrivial=nt, hang=o.hang, n=n)
    return Verdict(labels=labels, nontrivial=nt, n=n)


def one(*words, vs=()):
    return {"vars": [list(v) for v in vs] or [["a", ["nil"]]], "blocks": [
        {"kind": "", "pipe": False, "prog": "plain", "sep": " ", "scope": "top", "cmds": [list(words)]}]}


def u(s):
    return ["t", "u", [[c, c] for c in s]]


PINNED = [
    one([["t", "s", []]], [["t", "d", []]], [u("x")]),
    # Once: the number of items was reported as one less.
    {"vars": [["a", ["arr", [["int", 1], ["int", 2]]]]], "single": "program", "word": [["v", "a", True, False]], "env": False, "kind": "", "sep": " "},
    one([u("[a]")], [u("a{b")], [u("[")], [u("~")], [u("a~/")]),
]
