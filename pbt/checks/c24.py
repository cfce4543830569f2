"""Generated numbers, texts and values converted by std.int, std.float and std.to_string, against exact integer, decimal and IEEE arithmetic in Python."""
import math
import re
from decimal import Decimal

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.progs import judge, println, std
from lang.syntax import byte_lit, str_lit
from lang.vals import EDGE_FLOATS, I64MAX, I64MIN, floats, ints, int_expr, float_expr, values

COUNTS = {"quick": 16000, "thorough": 400000}
RULE = ("a case is a script of up to 25 conversions; non-trivial: some number has at least 3 digits or is negative, or some text is "
        "not a number; each conversion is one evaluation")
SAMPLE_LABELS = ("int to text", "float to text", "text to int", "text to float", "not an int", "not a float", "float to int", "int to float", "out of range",
                 "wrong type", "collection")

INT = re.compile(r"\A[+-]?[0-9]+\Z")
FLOAT = re.compile(r"\A[+-]?(?:[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]+)?|\.[0-9]+(?:[eE][+-]?[0-9]+)?|inf|infinity|nan)\Z", re.I)

int_texts = st.integers(0, 5).flatmap(lambda k: [
    ints.map(str), ints.map(str), st.integers(-(1 << 70), 1 << 70).map(str),
    st.sampled_from(["", " ", "5 ", " 5", "5\n", "+5", "-", "+", "--5", "+-5", "5-", "0x10", "0b1", "1_000", "1,000", "1e3", "5.0", "5.", ".5", "-0", "+0", "00", "007",
                     "-007", "inf", "nan", "NaN", "\xc2\xb2", "\xd9\xa3", "\xff", "5\0", "\0", "nil", "true", "a", "9223372036854775807", "9223372036854775808",
                     "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "+9223372036854775807", "000000000000000000000000000005", "5L", "\xef\xbc\x95"]),
    st.text(alphabet="0123456789+-.eE _", max_size=8), st.integers(0, 25).map(lambda n: "9" * n)][k])

def halfway(t):
    f, tail, down = t
    g = math.nextafter(f, math.inf)
    d = (Decimal(f) + Decimal(g)) / 2
    s = format(d, "f") if 1e-6 < f < 1e20 else "%r" % f
    if tail and "." in s and "e" not in s:
        s += tail
    return s


FLOAT_EDGE = ["", " ", "1.5 ", " 1.5", "+1.5", "-1.5", "1.", ".5", ".", "-.5", "+.5", "1.e5", "e5", "1e", "1e+", "1e+5", "1E-5", "1e5.0", "0x1p3", "1_0.0", "1,5", "inf", "-inf",
              "+inf", "Infinity", "-INFINITY", "infinit", "nan", "NaN", "-nan", "+NaN", "nano", "--1", "1..2", "1.2.3", "1e999", "-1e999", "1e-999", "0e0", "-0", "-0.0", "00.5",
              "\xff", "1\0", "1f", "1d", "5e-324", "2.4703282292062328e-324", "2.4703282292062327e-324", "1.7976931348623158e308", "1.7976931348623159e308",
              "9007199254740993", "0.1", "123456789012345678901234567890", "1e23", "8.5e22", "true", "\xd9\xa3"]
float_texts = st.integers(0, 6).flatmap(lambda k: [
    floats.map(repr), floats.map(lambda f: "%.17g" % f), ints.map(str), st.sampled_from(FLOAT_EDGE),
    st.from_regex(r"\A[+-]?[0-9]{0,20}\.?[0-9]{0,20}([eE][+-]?[0-9]{1,3})?\Z"), st.text(alphabet="0123456789+-.eE _infa", max_size=8),
    st.tuples(st.floats(min_value=1e-5, max_value=1e19), st.sampled_from(["", "1", "0000001"]), st.booleans()).map(halfway)][k])
near_ints = st.builds(lambda n, d: float(n) + d, st.integers(-(1 << 53), 1 << 53), st.sampled_from([0.0, 0.5, -0.5, 0.25, 0.9999999]))
edge_conv = st.sampled_from([9.223372036854775807e18, -9.223372036854775808e18, 9.223372036854774784e18, -9.223372036854777856e18, 1e300, -1e300, math.inf, -math.inf, math.nan,
                             0.9999999999999999, -0.9999999999999999, -0.0, 5e-324, 2147483648.5, -2147483649.5, 4294967296.0, 255.9, 256.1, -1.5, 1.5, 4.503599627370497e15])


@st.composite
def item(draw):
    k = draw(st.sampled_from(["i2s", "f2s", "f2s", "s2i", "s2i", "s2f", "s2f", "s2f", "f2i", "f2i", "i2f", "i2i", "f2f", "s2s", "bad", "chain"]))
    if k in ("i2s", "i2f", "i2i"):
        return [k, draw(ints)]
    if k in ("f2s", "f2f"):
        return [k, enc(draw(st.one_of(floats, edge_conv)))]
    if k == "f2i":
        return [k, enc(draw(st.one_of(floats, edge_conv, near_ints)))]
    if k == "s2i":
        return [k, draw(int_texts)]
    if k == "s2f":
        return [k, draw(float_texts)]
    if k == "s2s":
        return [k, draw(st.binary(max_size=12)).decode("latin-1")]
    if k == "bad":
        return [k, draw(st.sampled_from(["int", "float"])), draw(st.integers(0, len(BADS) - 1))]
    return [k, draw(ints), enc(draw(floats))]


BADS = ["nil", "true", "false", "'c'", "[]", "[1]", "@[]", "@[ a: 1 ]", "std.error(\"1\", 1)", "std.len", "function () 1 end", "'5'"]


def enc(f):
    return f.hex() if math.isfinite(f) else str(f)


def dec(s):
    return float.fromhex(s) if s not in ("inf", "-inf", "nan") else float(s)


def strategy(tier):
    texts = st.lists(item(), min_size=1, max_size=25).map(lambda xs: {"items": xs})
    # to_string of collections is their display.
    coll = st.lists(values(nan=True), min_size=1, max_size=6).map(lambda vs: {"values": vs})
    return st.integers(0, 4).flatmap(lambda k: coll if k == 0 else texts)


def num(i):
    return str(i) if i != I64MIN else "(-%d - 1)" % I64MAX


def flt(f):
    if math.isnan(f):
        return "(0.0 / 0.0)"
    if math.isinf(f):
        return "(1.0 / 0.0)" if f > 0 else "(-1.0 / 0.0)"
    s = repr(abs(f))
    if "e-" in s:
        s = "std.float(\"%s\")" % s
    s = s.replace("e+", "e")
    return "(-%s)" % s if math.copysign(1, f) < 0 else s


def shortest(text, f):
    """Is the text a shortest decimal of the double?"""
    if math.isnan(f):
        return text.lower() == "nan"
    if math.isinf(f):
        return text.lower() in (("inf", "infinity") if f > 0 else ("-inf", "-infinity"))
    try:
        g = float(text)
    except ValueError:
        return False
    if g != f or math.copysign(1, g) != math.copysign(1, f) or not FLOAT.match(text):
        return False
    if "." not in text and "e" not in text.lower():
        return False                      # it would read as an integer
    a, b = Decimal(text).normalize(), Decimal(repr(f)).normalize()
    return len(a.as_tuple().digits) <= len(b.as_tuple().digits)


def to_int(f):
    if math.isnan(f):
        return 0
    if math.isinf(f):
        return I64MAX if f > 0 else I64MIN
    return max(I64MIN, min(I64MAX, int(f)))


CAUGHT = "function c(f) let r = std.catch(f)\nif std.type(r) == \"error\" then std.println(\"panic\") else std.println(std.type(r), r) end end\n"


def build(case):
    text = CAUGHT
    for k, it in enumerate(case["items"]):
        t = it[0]
        if t == "i2s":
            text += "std.println(std.to_string(%s), std.type(std.to_string(%s)), std.int(std.to_string(%s)) == %s)\n" % ((num(it[1]),) * 4)
        elif t == "f2s":
            f = flt(dec(it[1]))
            text += "std.println(std.to_string(%s), std.type(std.to_string(%s)), std.float(std.to_string(%s)) == %s)\n" % (f, f, f, f)
        elif t == "s2i":
            text += "c(function () std.int(%s) end)\n" % str_lit(it[1])
        elif t == "s2f":
            text += "c(function () std.float(%s) end)\n" % str_lit(it[1])
        elif t == "f2i":
            text += "std.println(std.int(%s))\n" % flt(dec(it[1]))
        elif t == "i2f":
            text += "std.println(std.float(%s), std.int(std.float(%s)))\n" % (num(it[1]), num(it[1]))
        elif t == "i2i":
            text += "std.println(std.int(%s) == %s, std.type(std.int(%s)))\n" % (num(it[1]), num(it[1]), num(it[1]))
        elif t == "f2f":
            text += "std.println(std.float(%s), std.type(std.float(%s)))\n" % (flt(dec(it[1])), flt(dec(it[1])))
        elif t == "s2s":
            text += "std.println(std.to_string(%s) == %s, std.len(std.to_string(%s)))\n" % ((str_lit(it[1]),) * 3)
        elif t == "bad":
            text += "c(function () std.%s(%s) end)\n" % (it[1], BADS[it[2]])
        else:
            f = flt(dec(it[2]))
            text += "std.println(std.to_string(std.float(std.to_string(%s))), std.to_string(std.int(std.float(%s))))\n" % (f, num(it[1]))
    return text


def check(it, line, labels):
    """(why or None, non-trivial)"""
    t = it[0]
    f = line.split("\t")
    if t == "i2s":
        labels.add("int to text")
        return None if f == [str(it[1]), "string", "true"] else "int %d" % it[1], abs(it[1]) > 99
    if t == "f2s":
        labels.add("float to text")
        v = dec(it[1])
        ok = len(f) == 3 and shortest(f[0], v) and f[1] == "string" and f[2] == ("false" if math.isnan(v) else "true")
        return None if ok else "float %r" % v, True
    if t == "s2i":
        ok = INT.match(it[1]) and I64MIN <= int(it[1]) <= I64MAX
        labels.add("text to int" if ok else "out of range" if INT.match(it[1]) else "not an int")
        return None if f == (["int", str(int(it[1]))] if ok else ["panic"]) else "std.int of text %r" % it[1], True
    if t == "s2f":
        if not FLOAT.match(it[1]):
            labels.add("not a float")
            return None if f == ["panic"] else "std.float of text %r" % it[1], True
        labels.add("text to float")
        v = float(it[1])
        return None if len(f) == 2 and f[0] == "float" and shortest(f[1].lstrip("-") if math.isnan(v) else f[1], v) else "std.float of text %r, %r," % (it[1], v), True
    if t == "f2i":
        v = dec(it[1])
        labels.add("float to int" if math.isfinite(v) and abs(v) < 9.3e18 else "out of range")
        return None if f == [str(to_int(v))] else "std.int of %r" % v, True
    if t == "i2f":
        labels.add("int to float")
        v = float(it[1])
        return None if len(f) == 2 and shortest(f[0], v) and f[1] == str(to_int(v)) else "std.float of %d" % it[1], abs(it[1]) > 99
    if t == "i2i":
        return None if f == ["true", "int"] else "std.int of %d" % it[1], False
    if t == "f2f":
        v = dec(it[1])
        return None if len(f) == 2 and shortest(f[0], v) and f[1] == "float" else "std.float of %r" % v, False
    if t == "s2s":
        return None if f == ["true", str(len(it[1]))] else "std.to_string of string %r" % it[1], False
    if t == "bad":
        labels.add("wrong type")
        return None if f == ["panic"] else "std.%s of %s" % (it[1], BADS[it[2]]), False
    v = dec(it[2])
    return None if len(f) == 2 and shortest(f[0].lstrip("-") if math.isnan(v) else f[0], v) and f[1] == str(to_int(float(it[1]))) else "chain of %r and %d" % (v, it[1]), True


def show(case):
    if "values" in case:
        return str(case["values"])
    return build(case).encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    if "values" in case:
        prog = []
        for v in case["values"]:
            prog.append(["let", "v%d" % len(prog), v])
            prog.append(["expr", std("println", std("to_string", ["id", prog[-1][1]]))])
        v = judge(prog, rt, labels=["collection"])
        v.n = len(case["values"])
        return v
    text = build(case)
    o = rt.script(text.encode("latin-1"))
    labels, some, why = set(), False, None
    n = len(case["items"])
    if o.hang or o.rc != 0 or o.err:
        why = "hang" if o.hang else "exit status %r" % o.rc
    else:
        lines = o.out.decode("latin-1").split("\n")
        if len(lines) != n + 1:
            why = "%d lines of output instead of %d" % (len(lines) - 1, n)
        else:
            for it, line in zip(case["items"], lines):
                w, s = check(it, line, labels)
                some = some or s
                if w:
                    why = "%s: %r" % (w, line)
                    break
    labels = sorted(labels)
    if why:
        return fail({"why": why, "script": text, "actual": o.brief()}, labels=labels, nontrivial=some, hang=o.hang, n=n)
    return Verdict(labels=labels, nontrivial=some, n=n)
