"""Generated values and documents encoded and decoded by JSON, base64 and hex, against Python's independent codecs and round trips."""
import base64
import binascii
import json
import math

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.syntax import byte_lit, str_lit
from lang.vals import EDGE_FLOATS, I64MAX, I64MIN, floats, ints

COUNTS = {"quick": 7000, "thorough": 200000}
RULE = ("a case is a script that encodes or decodes up to 12 values or texts; non-trivial: some text decodes to a collection, a "
        "non-ASCII string, a float or at least two bytes, or is rejected as invalid; each value or text is one evaluation")
ASSUMPTIONS = ["floats decoded from JSON text of more than 15 digits or large exponents may differ from the nearest double by 2 units "
               "in the last place (known finding)", "JSON texts are nested less than 128 deep"]
SAMPLE_LABELS = ("json value", "json text", "invalid json", "base64", "invalid base64", "hex", "invalid hex", "not encodable", "nested", "escapes", "large")

CANON = """function canon(v)
	let t = std.type(v)
	if t == "nil" then return "n" end
	if t == "bool" then return if v then "t" else "F" end end
	if t == "int" then return "i" ++ std.to_string(v) ++ ";" end
	if t == "float" then return "f" ++ std.to_string(v) ++ ";" end
	if t == "string" then return "s" ++ std.to_string(std.len(v)) ++ ":" ++ v end
	if t == "array" then
		let r = "a" ++ std.to_string(std.len(v)) ++ ":"
		for x in std.iter(v) do r = r ++ canon(x) end
		return r
	end
	if t == "dict" then
		let r = "d" ++ std.to_string(std.len(v)) ++ ":"
		for e in std.iter(v) do r = r ++ canon(e.key) ++ canon(e.value) end
		return r
	end
	if t == "error" then return "e" end
	"?" ++ t
end
function out(v)
	let s = canon(v)
	std.println(std.len(s))
	std.println(s)
end
"""


class Bad(Exception):
    pass


def parse(b, i=0):
    """The value printed by canon()."""
    c = b[i:i + 1]
    if c in (b"n", b"t", b"F", b"e"):
        return {b"n": None, b"t": True, b"F": False, b"e": Bad}[c], i + 1
    if c in (b"i", b"f"):
        j = b.index(b";", i)
        t = b[i + 1:j].decode()
        return (int(t) if c == b"i" else float(t)), j + 1
    j = b.index(b":", i)
    n = int(b[i + 1:j])
    i = j + 1
    if c == b"s":
        return b[i:i + n], i + n
    if c == b"a":
        r = []
        for _ in range(n):
            v, i = parse(b, i)
            r.append(v)
        return r, i
    if c == b"d":
        r = {}
        for _ in range(n):
            k, i = parse(b, i)
            v, i = parse(b, i)
            r[k] = v
        if len(r) != n:
            raise Bad("repeated key")
        return r, i
    raise Bad("unexpected %r" % b[i:i + 20])


# -- values ----------------------------------------------------------------------------------------
texts = st.integers(0, 4).flatmap(lambda k: [
    st.sampled_from(["", "a", "key", "x y", "\"", "\\", "\n", "\t", "\0", "\x1f", "\x7f", "\u00e9", "\u20ac", "\U0001f600", "\u2028", "\ufeff", "/", "\ufffd",
                     "nil", "null", "1", "\b\f\r", "\uffff", "\U0010ffff"]),
    st.text(alphabet="abc\"\\\n/u0", max_size=8), st.text(max_size=6), st.text(alphabet="abcdef", max_size=20),
    st.tuples(st.text(alphabet="ab\"\\\n\u00e9\u20ac\U0001f600 ", min_size=1, max_size=5), st.integers(1, 150)).map(lambda t: t[0] * t[1])][k])
scalars = st.integers(0, 9).flatmap(lambda k: [
    st.none(), st.booleans(), ints, ints, floats.filter(lambda f: math.isfinite(f)), floats.filter(lambda f: math.isfinite(f)), texts, texts, texts,
    st.integers(-5, 5)][k])
def arrays(depth):
    return st.lists(values(depth - 1), max_size=5)


def values(depth):
    if depth == 0:
        return scalars
    return st.integers(0, 3).flatmap(lambda k: [
        scalars, scalars, arrays(depth), st.dictionaries(texts, values(depth - 1), max_size=5)][k])


jsons = st.integers(0, 4).flatmap(values)


def source(v):
    """Hush expression for a JSON-like value."""
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v) if v != I64MIN else "(-%d - 1)" % I64MAX
    if isinstance(v, float):
        r = repr(v)
        return "std.float(\"%s\")" % r.replace("e+", "e") if "e" in r else r
    if isinstance(v, bytes):
        return str_lit(v.decode("latin-1"))
    if isinstance(v, str):
        return str_lit(v.encode().decode("latin-1"))
    if isinstance(v, list):
        return "[" + ", ".join(source(x) for x in v) + "]"
    return "dictof([" + ", ".join("[%s, %s]" % (source(k), source(x)) for k, x in v.items()) + "])"


DICTOF = """function dictof(kv)
	let d = @[]
	for e in std.iter(kv) do d[e[0]] = e[1] end
	d
end
"""


def enc(v):
    """The value with strings as bytes."""
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {enc(k): enc(x) for k, x in v.items()}
    return v


def ulps(a, b):
    if a == b:
        return 0
    if math.isinf(a) or math.isinf(b):
        return 1 << 60
    import struct
    x, y = (struct.unpack("<q", struct.pack("<d", f))[0] for f in (a, b))
    if x < 0:
        x = -(x & 0x7fffffffffffffff)
    if y < 0:
        y = -(y & 0x7fffffffffffffff)
    return abs(x - y)


def easy(text):
    """Is the decimal one whose nearest double any reader must find (15 digits, small exponent)?"""
    t = text.lower().lstrip("-")
    m, _, e = t.partition("e")
    i, _, f = m.partition(".")
    digits = (i + f).lstrip("0")
    # Numbers wrongly read are those whose digits and power of ten are not both exact doubles.
    return len(digits) <= 15 and abs(int(e or "0") - len(f)) <= 22


class Num:
    """A number of a JSON text: its spelling."""

    def __init__(self, text):
        self.text = text


def same(got, want, exact=False):
    """Does a decoded value equal the expected one (with the tolerance for floats of the known finding)?"""
    if isinstance(want, Num):
        t = want.text
        if not any(c in t for c in ".eE"):
            n = int(t)
            if I64MIN <= n <= I64MAX and not (n == 0 and t[0] == "-"):
                return type(got) is int and got == n
            if got is Bad:
                return not (I64MIN <= n <= I64MAX)
            return type(got) is float and ulps(got, float(n)) <= 2
        f = float(t)
        if math.isinf(f):
            return got is Bad
        if got is Bad and abs(f) > 1.7e308:
            return True
        if type(got) is not float:
            return False
        d = ulps(got, f)
        return d == 0 or (not (exact or easy(t)) and d <= 2) or abs(got - f) <= 1e-323
    if isinstance(want, float):
        return same(got, Num(repr(want)), exact)
    if want is None or isinstance(want, bool) or want is Bad:
        return got is want
    if isinstance(want, int):
        return type(got) is int and got == want
    if isinstance(want, bytes):
        return type(got) is bytes and got == want
    if isinstance(want, list):
        return type(got) is list and len(got) == len(want) and all(same(a, b, exact) for a, b in zip(got, want))
    return isinstance(got, dict) and set(got) == set(want) and all(same(got[k], want[k], exact) for k in want)


# -- texts -----------------------------------------------------------------------------------------
def reject(_):
    raise ValueError("not JSON")


def walk(v):
    if isinstance(v, str):
        return v.encode("utf-8")      # lone surrogates are errors
    if isinstance(v, list):
        return [walk(x) for x in v]
    if isinstance(v, Pairs):
        d = Object((walk(k), walk(x)) for k, x in v.kv)
        d.all = [walk(x) for _, x in v.kv]
        return d
    return v


class Object(dict):
    """An object read from a text; all: its values, those of repeated keys too."""


class Pairs:
    def __init__(self, kv):
        self.kv = kv


def read_json(b):
    """What an independent strict reader makes of the text: a value, or Bad."""
    try:
        if b[:3] == b"\xef\xbb\xbf":
            return Bad
        t = b.decode("utf-8")
        v = json.loads(t, parse_constant=reject, parse_int=Num, parse_float=Num, object_pairs_hook=Pairs)
        v = walk(v)
    except (ValueError, RecursionError):
        return Bad
    return v


def has_huge(v):
    """Holds a number out of range of doubles or of 64-bit integers?"""
    if isinstance(v, Num):
        if any(c in v.text for c in ".eE"):
            return abs(float(v.text)) > 1.7e308
        return not I64MIN <= int(v.text) <= I64MAX
    if isinstance(v, list):
        return any(has_huge(x) for x in v)
    if isinstance(v, dict):
        return any(has_huge(x) for x in getattr(v, "all", v.values()))
    return False


number_texts = st.one_of(
    st.integers(-(1 << 66), 1 << 66).map(str), ints.map(str), floats.filter(math.isfinite).map(repr),
    st.from_regex(r"\A-?(0|[1-9][0-9]{0,18})(\.[0-9]{1,18})?([eE][+-]?[0-9]{1,3})?\Z"),
    st.sampled_from(["0", "-0", "-0.0", "0e0", "1e5", "1E+2", "1e-7", "0.1", "123456789012345678901234567890", "1.7976931348623157e308", "5e-324", "1e-400",
                     "1e400", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0.30000000000000004"]))


@st.composite
def spelled(draw, v):
    """Some valid JSON text for the value."""
    ws = lambda: draw(st.sampled_from(["", "", "", " ", "\n", "\t", "\r\n", "  "]))
    if isinstance(v, str):
        out = '"'
        for c in v:
            k = draw(st.integers(0, 3))
            o = ord(c)
            if o > 0xffff and k == 0:
                o -= 0x10000
                out += "\\u%04x\\u%04X" % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff))
            elif o < 0x20 or c in '"\\' or k == 0:
                short = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f", "/": "\\/"}
                out += short[c] if c in short and (k < 2 or o >= 0x10000) else "\\u%04x" % o if o < 0x10000 else c
            else:
                out += c
        return out + '"'
    if isinstance(v, list):
        return "[" + ws() + ("," + ws()).join([draw(spelled(x)) + ws() for x in v]) + "]"
    if isinstance(v, dict):
        items = list(v.items())
        if items and draw(st.integers(0, 3)) == 0:      # a repeated key: the last value counts
            for _ in range(draw(st.integers(1, 2))):
                items.insert(draw(st.integers(0, len(items))), (draw(st.sampled_from(items))[0], draw(scalars)))
        return "{" + ws() + ("," + ws()).join([draw(spelled(k)) + ws() + ":" + ws() + draw(spelled(x)) + ws() for k, x in items]) + "}"
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    return draw(number_texts)


@st.composite
def mutated(draw):
    t = draw(jsons.flatmap(spelled))
    b = t.encode()
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(b)))
        k = draw(st.integers(0, 3))
        if k == 0:
            b = b[:i]
        elif k == 1:
            b = b[:i] + b[i + 1:]
        elif k == 2:
            b = b[:i] + draw(st.sampled_from([b",", b"]", b"[", b"}", b"{", b"\"", b":", b"\\", b"0", b"-", b".", b"e", b" ", b"\xff", b"\n", b"x", b"null",
                                              b"//", b"'", b"NaN", b"+", b"\0", b"\xc2", b"\\u12", b"\\ud800", b"tru", b"Infinity"])) + b[i:]
        else:
            b = b + draw(st.sampled_from([b"x", b" 1", b"]", b",", b"\0", b"\xff", b"[]"]))
    return b.decode("latin-1")


raw_bytes = st.one_of(st.binary(max_size=12), st.binary(max_size=80), st.tuples(st.binary(min_size=1, max_size=9), st.integers(1, 400)).map(lambda t: t[0] * t[1]))


def latin(b):
    return b.decode("latin-1")


@st.composite
def bad64(draw):
    s = base64.b64encode(draw(st.binary(max_size=10))).decode()
    k = draw(st.integers(0, 5))
    i = draw(st.integers(0, len(s)))
    if k == 0:
        return s[:i] + draw(st.sampled_from(["\n", " ", "-", "_", "\xff", "\0", "!", "=", "é".encode().decode("latin-1"), "*"])) + s[i:]
    if k == 1:
        return s[:i]
    if k == 2:
        return s.rstrip("=")
    if k == 3:
        return s + draw(st.sampled_from(["=", "==", "A", "AA", "====", "Zg=="]))
    if k == 4 and s:
        return s[:i] + s[i + 1:]
    return draw(st.text(alphabet="ABab01+/=_- \n", max_size=12))


@st.composite
def badhex(draw):
    s = draw(st.binary(max_size=8)).hex()
    i = draw(st.integers(0, len(s)))
    return draw(st.sampled_from([s[:i], s[:i] + s[i + 1:], s[:i] + "g" + s[i:], s[:i] + " " + s[i:], s[:i] + "\xff" + s[i:], "0x" + s, s + "\n", s[:i] + "-" + s[i:],
                                 s[:i] + "\0" + s[i:], s[:i] + "/" + s[i:], s[:i] + ":" + s[i:], s[:i] + "@" + s[i:], s[:i] + "`" + s[i:], s[:i] + "G" + s[i:]]))


UNENC = ["std.len", "function () 1 end", "std.error(\"e\", nil)", "intkey(1)", "intkey(nil)", "intkey(1.5)", "intkey(true)", "intkey([1])", "intkey('c')"]


BIG = [100, 127, 128, 129, 255, 256, 257, 500, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 16385, 20001]


def big(n, how):
    """A value of n items, characters or bytes."""
    if how == "ints":
        return [i * i for i in range(n)]
    if how == "dict":
        return {"k%d" % i: i for i in range(min(n, 4100))}
    if how == "strings":
        return ["s%d" % i if i % 3 else "" for i in range(n)]
    if how == "nested":
        return [[i] if i % 2 else {"a": None} for i in range(min(n, 4100))]
    unit = {"plain": "abcdefg", "escaped": "a\"\\\n", "wide": "\u20ac\u00e9a\U0001f600", "control": "\x01a\x7f"}[how]
    return (unit * (n // len(unit) + 1))[:n]


def big_bytes(n):
    return bytes((i * 7 + i // 256) % 256 for i in range(n))


@st.composite
def item(draw):
    if draw(st.integers(0, 499)) == 250:
        n = draw(st.one_of(st.sampled_from(BIG), st.integers(100, 5000)))
        how = draw(st.sampled_from(["ints", "dict", "strings", "nested", "plain", "escaped", "wide", "control", "b64", "hex"]))
        return ["big", n * 4 if how in ("plain", "b64", "hex") else n, how]
    k = draw(st.sampled_from(["val", "val", "val", "text", "text", "mut", "mut", "b64", "b64", "b64d", "b64bad", "hex", "hexd", "hexbad", "unenc", "byte", "deep"]))
    if k == "val":
        return [k, draw(jsons)]
    if k == "text":
        return [k, latin(draw(jsons.flatmap(spelled)).encode())]
    if k == "mut":
        return ["text", draw(mutated())]
    if k in ("b64", "hex"):
        return [k, latin(draw(raw_bytes))]
    if k == "b64d":
        return ["b64d", latin(base64.b64encode(draw(raw_bytes)))]
    if k == "hexd":
        h = draw(raw_bytes).hex()
        return ["hexd", "".join(c.upper() if draw(st.booleans()) else c for c in h[:16]) + h[16:]]
    if k == "b64bad":
        return ["b64d", draw(bad64())]
    if k == "hexbad":
        return ["hexd", draw(badhex())]
    if k == "unenc":
        return [k, draw(st.integers(0, len(UNENC) - 1)), draw(st.integers(0, 4))]
    if k == "byte":
        return [k, draw(st.integers(0, 127))]
    return [k, draw(st.integers(1, 120)), draw(st.sampled_from(["[", "{", "mixed"]))]


def strategy(tier):
    return st.lists(item(), min_size=1, max_size=12).map(lambda xs: {"items": xs})


def build(case):
    text = CANON + DICTOF + "function intkey(k) let d = @[]\nd[k] = 1\nd end\n"
    for i, it in enumerate(case["items"]):
        k = it[0]
        if k in ("val", "exact"):
            text += "let v%d = %s\nlet e%d = std.json.encode(v%d)\nout(e%d)\nlet w%d = std.json.decode(e%d)\nout(w%d)\nout(v%d)\n" % (
                i, source(it[1]), i, i, i, i, i, i, i)
        elif k == "text":
            text += "let d%d = std.json.decode(%s)\nout(d%d)\n" % (i, str_lit(it[1]), i)
        elif k in ("b64", "hex"):
            m = "base64" if k == "b64" else "hex"
            text += "let b%d = %s\nlet c%d = std.%s.encode(b%d)\nout(c%d)\nout(std.%s.decode(c%d))\n" % (i, str_lit(it[1]), i, m, i, i, m, i)
        elif k in ("b64d", "hexd"):
            text += "out(std.%s.decode(%s))\n" % ("base64" if k == "b64d" else "hex", str_lit(it[1]))
        elif k == "big":
            n, how = it[1:]
            if how in ("b64", "hex"):
                m = "base64" if how == "b64" else how
                text += "let b%d = %s\nlet c%d = std.%s.encode(b%d)\nout(c%d)\nout(std.%s.decode(c%d) == b%d)\n" % (i, str_lit(latin(big_bytes(n))), i, m, i, i, m, i, i)
            else:
                v = big(n, how)
                text += ("let b%d = %s\nlet c%d = std.json.encode(b%d)\nout(c%d)\nout(std.json.decode(c%d) == b%d)\nout(std.json.decode(%s) == b%d)\n" % (
                    i, source(v), i, i, i, i, i, str_lit(latin(json.dumps(v, ensure_ascii=n % 2 == 0, indent=n % 3 or None).encode())), i))
        elif k == "unenc":
            e = UNENC[it[1]]
            for j in range(it[2]):
                e = "[1, %s]" % e if j % 2 else "@[ k: %s ]" % e
            text += "out(std.catch(function () std.json.encode(%s) end))\n" % e
        elif k == "byte":
            text += "out(std.json.decode(std.json.encode(%s)))\n" % byte_lit(it[1])
        elif k == "deep":
            n, how = it[1], it[2]
            a = "[" * n + "1" + "]" * n if how == "[" else '{\\"a\\":' * n + "1" + "}" * n if how == "{" else '[{\\"a\\":' * (n // 2) + "[1]" + "}]" * (n // 2)
            text += ("let d%d = std.json.decode(\"%s\")\nlet n%d = 0\nwhile std.type(d%d) != \"int\" do d%d = if std.type(d%d) == \"array\" then d%d[0] else d%d.a end\nn%d = n%d + 1 end\n"
                     "out(n%d)\n" % (i, a, i, i, i, i, i, i, i, i, i))
    return text


def show(case):
    return build(case).encode("latin-1").decode("utf-8", "backslashreplace") if "raw" not in case else case["raw"]


def evaluate(case, rt):
    if "raw" in case:
        o = rt.script(case["raw"].encode())
        ok = o.rc == 127 and o.err.count(b"\n") == 1
        return Verdict() if ok else fail({"why": "no panic", "actual": o.brief()})
    text = build(case)
    labels = set()
    some = False
    o = rt.script(text.encode("latin-1"))
    why = None
    vals = []
    if o.hang:
        why = "hang"
    elif o.rc != 0 or o.err:
        why = "exit status %r, standard error %r" % (o.rc, o.err[:300])
    else:
        try:
            b, i = o.out, 0
            while i < len(b):
                j = b.index(b"\n", i)
                n = int(b[i:j])
                v, e = parse(b[j + 1:j + 1 + n])
                if e != n or b[j + 1 + n:j + 2 + n] != b"\n":
                    raise Bad("garbled")
                vals.append(v)
                i = j + 2 + n
        except (Bad, ValueError) as e:
            why = "unexpected output: %s" % e
    it = iter(vals)
    for x in case["items"] if not why else []:
        k = x[0]
        try:
            if k in ("val", "exact"):
                labels.add("json value")
                v, (e, w, u) = enc(x[1]), (next(it), next(it), next(it))
                got = read_json(e) if isinstance(e, bytes) else Bad
                if isinstance(x[1], (list, dict)):
                    labels.add("nested")
                    some = True
                if not same_text(got, v):
                    why = "JSON of %r is %r" % (x[1], e)
                elif not same(w, v, k == "exact"):
                    why = "%r, encoded and decoded, is %r" % (x[1], w)
                elif not same(u, v, True):
                    why = "%r was changed to %r by encoding" % (x[1], u)
            elif k == "text":
                want, got = read_json(x[1].encode("latin-1")), next(it)
                labels.add("invalid json" if want is Bad else "json text")
                if "\\" in x[1]:
                    labels.add("escapes")
                some = some or want is Bad or isinstance(want, (list, dict, Num))
                if not same(got, want) and not (got is Bad and has_huge(want)):
                    why = "JSON text %r decoded as %r instead of %r" % (x[1], got, want)
            elif k == "b64":
                labels.add("base64")
                b = x[1].encode("latin-1")
                e, d = next(it), next(it)
                some = some or len(b) > 1
                if e != base64.b64encode(b) or d != b:
                    why = "base64 of %r is %r, decoded as %r" % (b, e, d)
            elif k == "b64d":
                s, got = x[1].encode("latin-1"), next(it)
                strict = Bad
                try:
                    d = base64.b64decode(s, validate=True)
                    if base64.b64encode(d) == s:
                        strict = d
                except (binascii.Error, ValueError):
                    pass
                if strict is not Bad:
                    labels.add("base64")
                    if got != strict:
                        why = "base64 text %r decoded as %r instead of %r" % (s, got, strict)
                else:
                    labels.add("invalid base64")
                    some = True
                    # Missing padding may be accepted; anything else is invalid.
                    if got is not Bad and (not isinstance(got, bytes) or base64.b64encode(got).rstrip(b"=") != s.rstrip(b"=") or len(s) > len(base64.b64encode(got))):
                        why = "invalid base64 text %r decoded as %r" % (s, got)
            elif k == "hex":
                labels.add("hex")
                b = x[1].encode("latin-1")
                e, d = next(it), next(it)
                some = some or len(b) > 1
                if e != b.hex().encode() or d != b:
                    why = "hex of %r is %r, decoded as %r" % (b, e, d)
            elif k == "hexd":
                s, got = x[1], next(it)
                ok = len(s) % 2 == 0 and all(c in "0123456789abcdefABCDEF" for c in s)
                labels.add("hex" if ok else "invalid hex")
                some = some or not ok
                want = bytes.fromhex(s) if ok else Bad
                if got != want:
                    why = "hex text %r decoded as %r instead of %r" % (s, got, want)
            elif k == "big":
                labels.add("large")
                n, how = x[1:]
                some = True
                if how in ("b64", "hex"):
                    b = big_bytes(n)
                    if next(it) != (base64.b64encode(b) if how == "b64" else b.hex().encode()):
                        why = "%d bytes are encoded differently" % n
                    elif next(it) is not True:
                        why = "%d bytes, encoded and decoded, are others" % n
                else:
                    e, a, b = next(it), next(it), next(it)
                    if not isinstance(e, bytes) or not same_text(read_json(e), enc(big(n, how))):
                        why = "a large value (%s, %d) is encoded as another one" % (how, n)
                    elif a is not True or b is not True:
                        why = "a large value (%s, %d) is decoded as another one: %r" % (how, n, (a, b))
            elif k == "unenc":
                labels.add("not encodable")
                if next(it) is not Bad:
                    why = "%s (nested %d deep) was encoded" % (UNENC[x[1]], x[2])
            elif k == "byte":
                got = next(it)
                if got != bytes([x[1]]):
                    why = "byte %d, encoded and decoded, is %r" % (x[1], got)
            elif k == "deep":
                n = x[1] if x[2] != "mixed" else x[1] // 2 * 2 + 1
                got = next(it)
                if got != n:
                    why = "nested %d deep, decoded as %r deep" % (n, got)
        except StopIteration:
            why = "output is missing"
        if why:
            break
    labels = sorted(labels)
    n = len(case["items"])
    if why:
        return fail({"why": why, "script": text, "actual": o.brief()}, labels=labels, nontrivial=some, hang=o.hang, n=n)
    return Verdict(labels=labels, nontrivial=some, n=n)


def same_text(got, want):
    """An independent reader's value of the encoded text (exact)."""
    if isinstance(got, Num):
        isint = not any(c in got.text for c in ".eE")
        if isinstance(want, bool):
            return False
        if isinstance(want, int):
            return isint and int(got.text) == want
        return isinstance(want, float) and not isint and float(got.text) == want and math.copysign(1, float(got.text)) == math.copysign(1, want)
    if isinstance(got, list):
        return isinstance(want, list) and len(got) == len(want) and all(same_text(a, b) for a, b in zip(got, want))
    if isinstance(got, dict):
        return isinstance(want, dict) and set(got) == set(want) and all(same_text(got[k], want[k]) for k in got)
    return type(got) is type(want) and got == want


PINNED = [{"items": [["big", 20001, h]]} for h in ("ints", "dict", "strings", "nested", "plain", "escaped", "wide", "control", "b64", "hex")]
