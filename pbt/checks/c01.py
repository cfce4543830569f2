"""Literals: the value of every literal is read back by independent means (hex of the bytes, type, display)."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.values import show_float, show as show_value, Arr, Byte, Dct, canonical

COUNTS = {"quick": 14000, "thorough": 400000}
RULE = ("a case is a script of 1 to 12 literals, or one with a single malformed literal; non-trivial: it has a literal "
        "with an escape, a non-ASCII byte, a numeric boundary or a nesting, or is malformed; each literal is one evaluation")
SAMPLE_LABELS = ("malformed", "int", "float", "string", "byte", "nested", "large")
ASSUMPTIONS = ["oracle: Python int() and float() for numbers; the generator knows the bytes it spelled for strings"]

ESC = {'"': 34, "'": 39, "n": 10, "t": 9, "0": 0, "\\": 92}
I64MAX = (1 << 63) - 1

int_text = st.one_of(
    st.integers(0, I64MAX).map(str), st.integers(0, 20).map(str),
    st.sampled_from([I64MAX, I64MAX - 1, 1 << 62, 1 << 32, (1 << 31) - 1, 10 ** 18]).map(str),
    st.tuples(st.integers(1, 6), st.integers(0, 10 ** 12)).map(lambda t: "0" * t[0] + str(t[1])),
)
digits = st.text(alphabet="0123456789", min_size=1, max_size=20)
# Digits beyond what any numeric type can hold.
many = st.tuples(digits, st.sampled_from([20, 30, 38, 40, 50, 64, 80, 120, 200, 290]), digits).map(lambda t: (t[0] * t[1])[:t[1]] + t[2])
float_text = st.one_of(
    st.tuples(digits, digits).map(lambda t: "%s.%s" % t),
    st.tuples(digits, digits, st.sampled_from("eE"), st.integers(0, 330)).map(lambda t: "%s.%s%s%d" % t),
    st.tuples(digits, st.sampled_from("eE"), st.integers(0, 330)).map(lambda t: "%s%s%d" % t),
    st.tuples(digits, st.booleans(), st.sampled_from("eE"), st.sampled_from(["", "0", "00", "000"]), st.integers(0, 330)).map(
        lambda t: "%s%s%s%s%d" % (t[0], ".5" if t[1] else "", t[2], t[3], t[4])),
    st.tuples(many, st.one_of(many, digits), st.one_of(st.just(""), st.integers(0, 200).map(lambda n: "e%d" % n))).map(lambda t: "%s.%s%s" % t),
    st.floats(min_value=0, max_value=1e300, allow_nan=False).map(
        lambda f: repr(f).replace("e+", "e")).filter(lambda r: "e-" not in r),
    st.sampled_from(["0.0", "1e22", "1e23", "9007199254740993.0", "1.7976931348623157e308", "1e999", "0.1",
                     "4.35", "0.3", "2.675", "179769313486231580793e289", "0.00000000000000000000000000001"]),
)


def piece():
    """One byte of a string: [how, byte]; how is raw or escape."""
    return st.one_of(
        st.integers(0, 255).filter(lambda b: b not in (34, 92)).map(lambda b: ["r", b]),
        st.sampled_from([97, 98, 32, 39, 35, 36, 123, 125, 47, 10, 9, 0, 13, 128, 255, 195, 169]).map(lambda b: ["r", b]),
        st.sampled_from(sorted(ESC)).map(lambda c: ["e", c]),
    )


string_lit = st.lists(piece(), max_size=12).map(lambda ps: ["string", ps])
byte_lit = st.one_of(
    st.integers(0, 255).filter(lambda b: b not in (39, 92)).map(lambda b: ["byte", ["r", b]]),
    st.sampled_from(sorted(ESC)).map(lambda c: ["byte", ["e", c]]),
)
names = st.sampled_from(["a", "b", "x", "_", "key", "K2", "end_", "nil_", "let1"])
atom = st.one_of(int_text.map(lambda t: ["int", t]), float_text.map(lambda t: ["float", t]), string_lit, byte_lit)


def display_safe(l):
    """Is the display of the literal the same in the model (used when nested)?"""
    if l[0] == "string":
        return all((p[0] == "r" and 32 <= p[1] < 127) or p[0] == "e" for p in l[1])
    if l[0] == "byte":
        return l[1][0] == "r" and 33 <= l[1][1] < 127 and chr(l[1][1]) not in ',[]@"'
    return True


nested = st.recursive(
    st.one_of(atom.filter(display_safe), st.sampled_from([["nil"], ["true"], ["false"]])),
    lambda s: st.one_of(
        st.tuples(st.lists(s, max_size=4), st.booleans()).map(lambda t: ["arr", t[0], t[1]]),
        st.tuples(st.lists(st.tuples(names, s), max_size=4, unique_by=lambda t: t[0]), st.booleans()).map(
            lambda t: ["dict", [list(x) for x in t[0]], t[1]]),
    ), max_leaves=10)
# Literals of unusual size: pieces, digits or items repeated.
SIZES = st.one_of(st.sampled_from([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024,
                                   1025, 2047, 2049, 4095, 4096, 4097, 8193]), st.integers(10, 3000),
                  st.sampled_from([16383, 16385, 32769, 65535, 65537]))
large = st.builds(lambda l, n, m: ["rep", l, n if m else min(n, 3000)], st.one_of(
    st.lists(piece(), min_size=1, max_size=4).map(lambda ps: ["string", ps]),
    st.lists(piece(), min_size=1, max_size=4).map(lambda ps: ["string", ps]),
    st.integers(0, I64MAX).map(lambda i: ["int", str(i)]),
    st.tuples(digits, digits).map(lambda t: ["float", "%s.%s" % t]),
    st.tuples(st.lists(atom.filter(display_safe), min_size=1, max_size=3), st.booleans()).map(lambda t: ["arr", t[0], t[1]]),
    st.tuples(st.lists(atom.filter(display_safe), min_size=1, max_size=1), st.booleans()).map(
        lambda t: ["dict", [["k", t[0][0]]], t[1]])), SIZES, st.integers(0, 3).map(lambda k: k == 0))


def expand(l):
    """The literal a repetition stands for."""
    if l[0] != "rep":
        return l
    l, n = l[1], l[2]
    if l[0] == "string":
        return ["string", l[1] * n]
    if l[0] == "int":
        return ["int", "0" * n + l[1]]
    if l[0] == "float":
        return ["float", l[1] + ("0" if n % 2 else "3") * n]
    if l[0] == "arr":
        return ["arr", l[1] * min(n, 5000), l[2]]
    return ["dict", [["k%d" % i, l[1][0][1]] for i in range(min(n, 3000))], l[2]]


good = st.one_of(atom, atom, nested)

BAD = [
    b"9223372036854775808", b"99999999999999999999", b"18446744073709551616", b"9223372036854775807000",
    b"1.", b"1e", b"1.5e", b"2E", b"3.e", b"1..2", b"''", b"'ab'", b"'a", b'"abc', b"'\\x'", b"'\\'",
    b'"\\x41"', b'"\\q"', b'"\\a"', b'"\\\n"', b"'\\n", b"'\\nn'", b'"\\', b"[1,,2]", b"[1", b"@[a 1]", b"@[1: 2]",
    b"@[a: ]", b"@[a: 1", b"[1 2]", b"@[a: 1 b: 2]", b"@[\"a\": 1]", b"1.5.2", b"'\\r'", b'"\\r"', b'"\\b"', b"'\\e'", b"1.e",
]


def malformed():
    return st.one_of(
        st.sampled_from(BAD).map(lambda b: b.decode("latin-1")),
        st.integers(I64MAX + 1, 10 ** 25).map(str),
        st.integers(0, 255).filter(lambda b: chr(b) not in "\"'nt0\\").map(lambda b: '"x\\%sy"' % chr(b)),
        st.integers(0, 255).filter(lambda b: chr(b) not in "\"'nt0\\").map(lambda b: "'\\%s'" % chr(b)),
        digits.map(lambda d: d + "."), digits.map(lambda d: d + "e"), digits.map(lambda d: d + ".5E"),
        st.lists(piece(), max_size=6).map(lambda ps: text_of(["string", ps])[:-1]),
        st.tuples(piece(), piece()).map(lambda t: "'%s%s'" % (spell(t[0], "'"), spell(t[1], "'"))),
    )


@st.composite
def cases(draw):
    lits = draw(st.lists(good, min_size=1, max_size=12))
    if draw(st.integers(0, 29)) == 7:
        lits = lits[:3]
        lits.insert(draw(st.integers(0, len(lits))), draw(large))
    bad = None
    if draw(st.integers(0, 7)) == 7:
        bad = [draw(st.integers(0, len(lits))), draw(malformed())]
    return {"lits": lits, "bad": bad}


def strategy(tier):
    return cases()


def spell(p, quote='"'):
    if p[0] == "e":
        return "\\" + p[1]
    c = chr(p[1])
    if c == quote or c == "\\":
        return "\\" + c
    return c


def byte_of(p):
    return ESC[p[1]] if p[0] == "e" else p[1]


def text_of(l):
    k = l[0]
    if k in ("int", "float"):
        return l[1]
    if k in ("nil", "true", "false"):
        return k
    if k == "string":
        return '"' + "".join(spell(p) for p in l[1]) + '"'
    if k == "byte":
        return "'" + spell(l[1], "'") + "'"
    if k == "arr":
        return "[" + ", ".join(text_of(x) for x in l[1]) + (", " if l[2] and l[1] else "") + "]"
    return "@[" + ", ".join("%s: %s" % (n, text_of(x)) for n, x in l[1]) + ("," if l[2] and l[1] else "") + "]"


def value(l):
    k = l[0]
    if k == "int":
        return int(l[1].lstrip("0") or "0")
    if k == "float":
        return float(l[1])
    if k == "string":
        return bytes(byte_of(p) for p in l[1])
    if k == "byte":
        return Byte(byte_of(l[1]))
    if k == "arr":
        return Arr([value(x) for x in l[1]])
    if k == "dict":
        d = Dct()
        for n, x in l[1]:
            d.put(n.encode(), value(x))
        return d
    return {"nil": None, "true": True, "false": False}[k]


KIND = {"int": "int", "float": "float", "string": "string", "byte": "char", "arr": "array", "dict": "dict", "nil": "nil",
        "true": "bool", "false": "bool"}


def script(case):
    out = []
    ls = [expand(l) for l in case["lits"]]
    lits = [text_of(l) for l in ls]
    kinds = [l[0] for l in ls]
    if case["bad"]:
        lits.insert(case["bad"][0], case["bad"][1])
        kinds.insert(case["bad"][0], "bad")
    for i, (t, k) in enumerate(zip(lits, kinds)):
        out.append("let v%d = %s\n" % (i, t))
        out.append("std.println(std.type(v%d))\n" % i)
        if k == "string":
            out.append("std.println(std.len(v%d), std.hex.encode(v%d))\n" % (i, i))
        elif k == "byte":
            # The byte, raw, then a newline.
            out.append("std.println(v%d)\n" % i)
        else:
            out.append("std.println(v%d)\n" % i)
    return "".join(out).encode("latin-1")


def expected(case):
    out = []
    for l in map(expand, case["lits"]):
        out.append(KIND[l[0]].encode() + b"\n")
        v = value(l)
        if l[0] == "string":
            out.append(b"%d\t%s\n" % (len(v), v.hex().encode()))
        elif l[0] == "byte":
            out.append(bytes([v.b]) + b"\n")
        elif l[0] == "float":
            out.append(show_float(v).encode() + b"\n")
        else:
            out.append(show_value(v).encode() + b"\n")
    return out


def same(chunks, out):
    """Dicts are displayed in no particular order, but in the same number of bytes."""
    i = 0
    for c in chunks:
        if canonical(out[i:i + len(c)]) != canonical(c):
            return False
        i += len(c)
    return i == len(out)


def show(case):
    return script(case).decode("utf-8", "backslashreplace")


def interesting(l):
    k = l[0]
    if k == "rep":
        return True
    if k == "string":
        return any(p[0] == "e" or p[1] > 126 or p[1] < 32 for p in l[1])
    if k == "byte":
        return l[1][0] == "e" or not 32 <= l[1][1] < 127
    if k == "int":
        return len(l[1]) > 9 or l[1].startswith("0")
    if k == "float":
        return len(l[1]) > 6 or "e" in l[1].lower()
    return k in ("arr", "dict")


def evaluate(case, rt):
    labels = sorted(set("nested" if l[0] in ("arr", "dict") else l[0] for l in map(expand, case["lits"])) | set("large" for l in case["lits"] if l[0] == "rep"))
    s = script(case)
    if case["bad"]:
        labels.append("malformed")
        for flags in ((), ("--check",)):
            o = rt.script(s, flags=flags)
            if o.rc != 2 or o.out != b"" or o.err == b"":
                return fail({"why": "a malformed literal is not rejected", "literal": case["bad"][1],
                             "actual": o.brief()}, labels=labels, hang=o.hang)
        return Verdict(labels=labels, n=2)
    o = rt.script(s)
    want = expected(case)
    if o.hang or o.rc != 0 or o.err != b"" or not same(want, o.out):
        return fail({"why": "wrong value", "expected": b"".join(want).decode("utf-8", "backslashreplace"),
                     "actual": o.brief()}, labels=labels, hang=o.hang)
    return Verdict(labels=labels, nontrivial=any(interesting(l) for l in case["lits"]), n=len(case["lits"]))


PINNED = [{"lits": [["rep", l, n]], "bad": None} for n in (300, 70000) for l in (
    ["string", [["r", 97], ["e", "n"], ["r", 255]]], ["string", [["e", "0"]]], ["string", [["r", 9]]], ["int", "7"], ["float", "1.5"],
    ["arr", [["int", "1"], ["byte", ["r", 120]]], False], ["dict", [["k", ["string", []]]], True])]
