"""Generated chains of string functions over arbitrary byte strings, against Python's bytes operations."""
import re

from hypothesis import strategies as st

from core.engine import Verdict
from lang.progs import expect
from lang.syntax import byte_lit, str_lit
from lang.vals import I64MAX, I64MIN, int_expr

COUNTS = {"quick": 9000, "thorough": 260000}
RULE = ("a case is a script of up to 20 string operations, each on given strings or results of earlier ones; non-trivial: some "
        "operation splits, replaces, trims or extracts something other than the whole string; each operation is one evaluation")
SAMPLE_LABELS = ("split", "replace", "trim", "substr", "bytes", "contains", "index", "iteration", "empty pattern", "overlapping", "long", "out of range")

SPACE = rb"(?:[\t-\r ]|\xc2[\x85\xa0]|\xe1\x9a\x80|\xe2\x80[\x80-\x8a\xa8\xa9\xaf]|\xe2\x81\x9f|\xe3\x80\x80)*"
LEAD, TRAIL = re.compile(rb"\A" + SPACE), re.compile(SPACE + rb"\Z")
BLANKS = [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\xc2\xa0", "\xc2\x85", "\xe2\x80\x83", "\xe3\x80\x80", "\xe2\x80\xa8", "\xe1\x9a\x80", "\xe2\x81\x9f"]
NEARLY = ["\0", "\x1c", "\x1f", "\x85", "\xa0", "\xe2\x80", "\xe2\x80\x8b", "\xc2", "\xef\xbb\xbf", "\x08", "x", "\xe2\x81\xa0"]


def trim(b):
    b = b[LEAD.match(b).end():]
    # The longest run of whitespace ending the string.
    while True:
        m = re.search(rb"(?:[\t-\r ]|\xc2[\x85\xa0]|\xe1\x9a\x80|\xe2\x80[\x80-\x8a\xa8\xa9\xaf]|\xe2\x81\x9f|\xe3\x80\x80)\Z", b)
        if not m:
            return b
        b = b[:m.start()]


def split(s, p):
    if not p:
        return [b""] + [bytes([c]) for c in s] + [b""]
    return s.split(p)


strings = st.integers(0, 7).flatmap(lambda k: [
    st.text(alphabet="ab", max_size=12),
    st.text(alphabet="ab", max_size=12),
    st.binary(max_size=10).map(lambda b: b.decode("latin-1")),
    st.sampled_from(["", "a", "hello world", "a,b,,c", "x=1;y=2", "line 1\nline 2\n", "\xc3\xa9\xe2\x82\xac", "tab\tx", "  padded  ", "\0", "\xff\xff"]),
    st.tuples(st.lists(st.sampled_from(BLANKS + NEARLY), max_size=4), st.text(alphabet="a b\x85\xa0", max_size=4), st.lists(st.sampled_from(BLANKS + NEARLY), max_size=4)).map(
        lambda t: "".join(t[0]) + t[1] + "".join(t[2])),
    st.tuples(st.text(alphabet="abc", min_size=1, max_size=5), st.integers(1, 120), st.text(alphabet="abc", max_size=3)).map(lambda t: t[0] * t[1] + t[2]),
    st.tuples(st.binary(min_size=1, max_size=40), st.integers(1, 60), st.binary(max_size=40)).map(lambda t: (t[0] * t[1] + t[2]).decode("latin-1")),
    st.text(alphabet="abc ,.", max_size=40),
][k])

BOUNDS = st.one_of(st.integers(-2, 14), st.sampled_from([I64MAX, I64MIN, I64MAX - 1, -1, 255, 256, 1 << 32, 1 << 31, 1000]))


@st.composite
def cases(draw):
    base = draw(st.lists(strings, min_size=1, max_size=4))
    ops = []
    for _ in range(draw(st.integers(2, 20))):
        k = draw(st.sampled_from(["split", "split", "replace", "replace", "replace", "trim", "trim", "substr", "substr", "substr", "bytes", "contains",
                                  "len", "empty", "index", "iter", "concat", "cmp", "join"]))
        a, b, c = draw(st.integers(0, 30)), draw(st.integers(0, 30)), draw(st.integers(0, 30))
        # An argument: a string of the pool, a piece of the subject, or a new one.
        pat = draw(st.integers(0, 5).flatmap(lambda q: [
            st.just(["pool", b]), st.tuples(st.just("piece"), st.integers(0, 40), st.integers(0, 6)).map(list),
            st.tuples(st.just("piece"), st.integers(0, 2000), st.integers(1, 90)).map(list),
            st.text(alphabet="ab", max_size=3).map(lambda s: ["new", s]), st.sampled_from([["new", ","], ["new", ""], ["new", "\n"], ["new", "\xff"]]),
            strings.map(lambda s: ["new", s])][q]))
        rep = draw(st.sampled_from([["new", ""], ["new", "a"], ["new", "ab"], ["new", "X"], ["pool", c], ["new", "$1"], ["new", "\\0"], ["new", "\xff"]]))
        ops.append([k, a, pat, rep, draw(BOUNDS), draw(BOUNDS), draw(st.integers(0, 255))])
    return {"base": base, "ops": ops}


def strategy(tier):
    return cases()


def build(case):
    pool = [s.encode("latin-1") for s in case["base"]]
    lit = lambda b: str_lit(b.decode("latin-1"))
    text = "".join("let s%d = %s\n" % (i, lit(b)) for i, b in enumerate(pool))
    text += """function show(x)
	if std.type(x) == "array" then
		std.println("array", std.len(x))
		for y in std.iter(x) do show(y) end
	else
		std.print(std.type(x))
		std.print(":")
		std.println(x)
	end
end
"""
    exp = bytearray()
    labels = set()
    some, n = False, 0

    def shown(b):
        if isinstance(b, list):
            return b"array\t%d\n" % len(b) + b"".join(shown(x) for x in b)
        if b is None:
            return b"nil:nil\n"
        if isinstance(b, bool):
            return b"bool:true\n" if b else b"bool:false\n"
        if isinstance(b, int):
            return b"int:%d\n" % b
        return b"string:" + b + b"\n"

    def num(i):
        return str(i) if i != I64MIN else "(-%d - 1)" % I64MAX

    for k, a, pat, rep, i, j, byte in case["ops"]:
        s = a % len(pool)
        subj = pool[s]
        sv = "s%d" % s

        def arg(p):
            if p[0] == "pool":
                return "s%d" % (p[1] % len(pool)), pool[p[1] % len(pool)]
            if p[0] == "piece":
                at = p[1] % (len(subj) + 1)
                v = subj[at:at + p[2]]
                return lit(v), v
            v = p[1].encode("latin-1")
            return lit(v), v
        n += 1
        name = "s%d" % len(pool)
        if len(subj) > 60:
            labels.add("long")
        if k == "split":
            t, p = arg(pat)
            r = split(subj, p)
            if len(r) > 3000:
                continue
            text += "let r%d = std.split(%s, %s)\nshow(r%d)\n" % (n, sv, t, n)
            exp += shown(r)
            labels.add("split")
            if not p:
                labels.add("empty pattern")
            elif len(r) > 1:
                some = True
            q = i % len(r)
            text += "let %s = r%d[%d]\n" % (name, n, q)
            pool.append(r[q])
        elif k == "join":
            # Splitting and joining by the separator restores the string.
            t, p = arg(pat)
            if not p:
                continue
            text += ("let j%d = \"\"\nlet k%d = 0\nfor x in std.iter(std.split(%s, %s)) do\n\tif k%d > 0 then j%d = j%d ++ %s end\n\tj%d = j%d ++ x\n\tk%d = k%d + 1\nend\n"
                     "std.println(j%d == %s, k%d)\n") % (n, n, sv, t, n, n, n, t, n, n, n, n, n, sv, n)
            exp += b"true\t%d\n" % len(subj.split(p))
        elif k == "replace":
            t, p = arg(pat)
            t2, r2 = arg(rep)
            r = subj.replace(p, r2)
            if len(r) > 20000:
                continue
            text += "let %s = std.replace(%s, %s, %s)\nshow(%s)\n" % (name, sv, t, t2, name)
            exp += shown(r)
            pool.append(r)
            labels.add("replace")
            if p and r != subj:
                some = True
                if len(p) > 1 and p[:1] * len(p) == p:
                    labels.add("overlapping")
            if not p:
                labels.add("empty pattern")
        elif k == "trim":
            r = trim(subj)
            text += "let %s = std.trim(%s)\nshow(%s)\n" % (name, sv, name)
            exp += shown(r)
            pool.append(r)
            labels.add("trim")
            some = some or r != subj
        elif k == "substr":
            ok = i >= 0 and j >= 0 and i + j <= len(subj)
            if not ok and i >= 0 and j >= 0 and i < 20 and byte % 2:
                # Mostly valid ranges.
                i = i % (len(subj) + 1)
                j = j % (len(subj) - i + 1)
                ok = True
            r = subj[i:i + j] if ok else None
            text += "let t%d = std.substr(%s, %s, %s)\nshow(t%d)\n" % (n, sv, num(i), num(j), n)
            exp += shown(r)
            labels.add("substr" if ok else "out of range")
            if ok:
                text += "let %s = t%d\n" % (name, n)
                pool.append(r)
                some = some or r != subj
        elif k == "bytes":
            text += "let y%d = std.bytes(%s)\nstd.println(std.len(y%d))\nfor c in std.iter(y%d) do std.print(std.type(c), \"\") std.print(c) end\nstd.println()\n" % (n, sv, n, n)
            exp += b"%d\n" % len(subj) + b"".join(b"char\t" + bytes([c]) for c in subj) + b"\n"
            labels.add("bytes")
        elif k == "iter":
            text += "for c in std.iter(%s) do std.print(c, \"\") end\nstd.println()\n" % sv
            exp += b"".join(bytes([c]) + b"\t" for c in subj) + b"\n"
            labels.add("iteration")
        elif k == "contains":
            c = subj[i % len(subj)] if subj and byte % 2 else byte
            text += "show(std.contains(%s, %s))\n" % (sv, byte_lit(c))
            exp += shown(c in subj)
            labels.add("contains")
        elif k == "len":
            text += "show(std.len(%s))\n" % sv
            exp += shown(len(subj))
        elif k == "empty":
            text += "show(std.is_empty(%s))\n" % sv
            exp += shown(not subj)
        elif k == "index":
            if byte % 3 and subj:
                i = i % len(subj)
            ok = 0 <= i < len(subj)
            if ok:
                text += "std.println(std.type(%s[%s]), %s[%s])\n" % (sv, num(i), sv, num(i))
                exp += b"char\t" + bytes([subj[i]]) + b"\n"
                labels.add("index")
            else:
                text += "std.println(std.type(std.catch(function () %s[%s] end)))\n" % (sv, num(i))
                exp += b"error\n"
                labels.add("out of range")
        elif k == "concat":
            t, p = arg(pat)
            if len(subj) + len(p) > 9000:
                continue
            text += "let %s = %s ++ %s\nshow(%s)\n" % (name, sv, t, name)
            exp += shown(subj + p)
            pool.append(subj + p)
        else:
            t, p = arg(pat)
            text += "std.println(%s == %s, %s < %s)\n" % (sv, t, sv, t)
            exp += b"%s\t%s\n" % tuple(b"true" if x else b"false" for x in (subj == p, subj < p))
    # No string changed.
    for i, b in enumerate(pool):
        text += "std.println(s%d == %s)\n" % (i, lit(b)) if i < 6 else ""
        exp += b"true\n" if i < 6 else b""
    return text, bytes(exp), labels, some, max(n, 1)


def show(case):
    return build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    text, exp, labels, some, n = build(case)
    return expect(text, exp, rt, sorted(labels), some, n)


PINNED = [
    {"base": ["abc"], "ops": [["substr", 0, ["new", ""], ["new", ""], I64MAX, I64MAX, 0], ["substr", 0, ["new", ""], ["new", ""], -1, 1, 0],
                              ["substr", 0, ["new", ""], ["new", ""], 1, -1, 0], ["substr", 0, ["new", ""], ["new", ""], I64MIN, 2, 0]]},
]
