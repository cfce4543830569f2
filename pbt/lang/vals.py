"""Strategies for expressions denoting arbitrary values (as syntax trees)."""
import math

from hypothesis import strategies as st

from .progs import println, std

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1

EDGE_INTS = sorted(set(
    [0, 1, 2, 3, 5, 7, 10, 63, 64, 100, 127, 128, 255, 256, 1000, 65535, 65536, I64MAX, I64MAX - 1, I64MIN + 1,
     I64MIN, 3037000499, 3037000500, 3037000501, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 1 << 53,
     (1 << 53) + 1, 1 << 62, (1 << 62) - 1, (1 << 62) + 1, I64MAX // 3, I64MAX // 7, I64MAX // 10]
    + [-x for x in (1, 2, 3, 5, 7, 10, 64, 255, 256, 3037000499, 3037000500, 1 << 31, 1 << 32, 1 << 62,
                    (1 << 62) + 1, I64MAX // 3, I64MAX)]))

EDGE_FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 0.1, 0.2, 0.3, 1e15, 1e16, 1e17, 9.999999999999999e15, 1e-5,
               9.999e-6, 1e-4, 1e21, 1e22, 1e23, 1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308,
               math.inf, -math.inf, math.nan, 9007199254740992.0, 9007199254740993.0, 9.223372036854775807e18,
               -9.223372036854775808e18, 123456789.123456789, 1 / 3, 100.0, -2.5]


def int_expr(n):
    if n >= 0:
        return ["int", n]
    if n == I64MIN:
        return ["bin", "-", ["un", "-", ["int", I64MAX]], ["int", 1]]
    return ["un", "-", ["int", -n]]


def float_expr(f):
    """An expression for any double."""
    if math.isnan(f):
        return ["bin", "/", ["float", "0.0"], ["float", "0.0"]]
    if math.isinf(f):
        e = ["float", "1e999"]
        return e if f > 0 else ["un", "-", e]
    a = abs(f)
    r = repr(a)
    if "e-" in r:
        e = std("float", ["str", r])
    elif "e" in r:
        e = ["float", r.replace("e+", "e")]
    else:
        e = ["float", r]
    return ["un", "-", e] if math.copysign(1, f) < 0 else e


ints = st.one_of(
    st.integers(-12, 12), st.sampled_from(EDGE_INTS), st.integers(I64MIN, I64MAX),
    st.builds(lambda a, b: max(I64MIN, min(I64MAX, a + b)), st.sampled_from(EDGE_INTS), st.integers(-3, 3)),
    st.builds(lambda k, s, d: max(I64MIN, min(I64MAX, s * (1 << k) + d)), st.integers(0, 63), st.sampled_from([1, -1]),
              st.integers(-1, 1)),
)
floats = st.one_of(st.sampled_from(EDGE_FLOATS), st.floats(allow_nan=False, allow_infinity=False),
                   st.integers(-40, 40).map(lambda n: n / 8))
# Strings are latin-1 texts standing for bytes.
raw_strings = st.one_of(
    st.sampled_from(["", "a", "b", "ab", "ba", "aa", "A", "0", "10", "9", "hello", "x y", "a\nb", "\t", "\"", "\\", "'",
                     "\xc3\xa9", "\xe2\x82\xac", "\0", "%", "$x", "*", "~", " ", "  ", "\n\n", "\r\n", "a\n\n", " a ", "aaaa", "  \t\n ", "nil", "true"]),
    st.text(alphabet="ab", max_size=6),
    st.text(alphabet=" \t\n\r", max_size=4),
    st.text(alphabet="abcxyz01 .,-_", max_size=12),
    st.binary(max_size=8).map(lambda b: b.decode("latin-1")),
)
# Strings whose display is the same in Python and Rust (valid UTF-8, printable).
plain_strings = st.one_of(
    st.sampled_from(["", "a", "b", "ab", "ba", "hello", "x y", "a\nb", "\t", "q\"q", "b\\s", "it's", "0", "[ ", " ]",
                     "@[ ", ", ", "\xc3\xa9"]),
    st.text(alphabet="abc xyz019", max_size=8),
)
# Bytes with a plain display.
plain_bytes = st.sampled_from([ord(c) for c in "abcxyz019 ."] + [0x7e, 0x21])
any_bytes = st.integers(0, 255)

int_e = ints.map(int_expr)
small_int_e = st.integers(0, 9).map(int_expr)
float_e = floats.map(float_expr)
num_float_e = floats.filter(lambda f: not math.isnan(f)).map(float_expr)
bool_e = st.sampled_from([["true"], ["false"]])
nil_e = st.just(["nil"])
byte_e = plain_bytes.map(lambda b: ["byte", b])
str_e = plain_strings.map(lambda s: ["str", s])
raw_str_e = raw_strings.map(lambda s: ["str", s])
NAMES = ["a", "b", "c", "k", "x", "key", "n_1", "Zz"]


def scalars(nan=True, raw=False):
    return st.one_of(small_int_e, int_e, float_e if nan else num_float_e, bool_e, nil_e, byte_e,
                     raw_str_e if raw else str_e)


def dict_e(vals, max_size=3):
    return st.lists(st.tuples(st.sampled_from(NAMES), vals), max_size=max_size, unique_by=lambda t: t[0]).map(
        lambda kv: ["dict", [list(x) for x in kv]])


def array_e(vals, max_size=4):
    return st.lists(vals, max_size=max_size).map(lambda xs: ["arr", xs])


def error_e(vals):
    return st.builds(lambda d, c: std("error", ["str", d], c), plain_strings, vals)


def values(nan=True, raw=False, errors=True, max_leaves=8):
    """Any value that is not a function."""
    base = scalars(nan, raw)

    def ext(inner):
        opts = [array_e(inner), dict_e(inner)]
        if errors:
            opts.append(error_e(inner))
        return st.one_of(*opts)
    return st.recursive(base, ext, max_leaves=max_leaves)


FUN_E = ["func", [], [["expr", ["int", 1]]]]


def with_functions(s):
    return st.one_of(s, s, s, st.just(FUN_E), st.just(["dot", ["id", "std"], "len"]))


def caught(*es):
    """Print the values of the expressions, or the panic they raise."""
    return println(std("catch", ["func", [], [["expr", ["arr", list(es)]] if len(es) != 1 else ["return", es[0]]]]))
