"""Arithmetic, comparison and concatenation against exact arithmetic."""
from hypothesis import strategies as st

from lang import vals as V
from lang.progs import judge, println
from lang.syntax import render

WIDE = ["strings", "operators"]
COUNTS = {"quick": 14000, "thorough": 400000}
RULE = ("a case is a program of 1 to 20 operator applications over generated operands (each evaluated under "
        "std.catch and printed); non-trivial: at least one of them yields a value and at least one panics or involves "
        "an edge operand; each application counts as one evaluation")
ASSUMPTIONS = ["oracle: Python integers with a 64-bit range check, and IEEE doubles",
               "the minimum integer divided by -1 panics; the message may say division by zero"]
ARITH = ["+", "-", "*", "/", "%"]
CMP = ["<", "<=", ">", ">=", "==", "!="]

leaf_any = V.with_functions(V.values(raw=False, max_leaves=3))
num_i = st.recursive(V.int_e, lambda s: st.one_of(
    st.builds(lambda o, a, b: ["bin", o, a, b], st.sampled_from(ARITH), s, s),
    s.map(lambda e: ["un", "-", e])), max_leaves=4)
num_f = st.recursive(V.float_e, lambda s: st.one_of(
    st.builds(lambda o, a, b: ["bin", o, a, b], st.sampled_from(ARITH), s, s),
    s.map(lambda e: ["un", "-", e])), max_leaves=4)


def binop(ops, a, b):
    return st.builds(lambda o, x, y: ["bin", o, x, y], ops, a, b)


byte_any = st.one_of(st.sampled_from([0, 1, 0x30, 0x61, 0x7e, 0x7f, 0x80, 0x81, 0xa0, 0xe9, 0xfe, 0xff]), V.any_bytes).map(lambda b: ["byte", b])

# Operands of scalar types: every operator over every pair of types, with the values a conversion would treat specially.
SPECIAL = [["int", 0], ["int", 1], ["un", "-", ["int", 1]], ["int", 2], ["float", "0.0"], ["un", "-", ["float", "0.0"]],
           ["float", "1.0"], ["float", "2.0"], ["byte", 0x31], ["byte", 0x30], ["byte", 0x61], ["str", ""], ["str", "0"],
           ["str", "1"], ["str", "a"], ["true"], ["false"], ["nil"], ["arr", []], ["dict", []], ["arr", [["int", 1]]]]
scalar = st.one_of(st.sampled_from(SPECIAL), st.sampled_from(SPECIAL), V.int_e, V.float_e,
                   V.any_bytes.map(lambda b: ["byte", b]), V.plain_strings.map(lambda s: ["str", s]))

ar, cm = st.sampled_from(ARITH), st.sampled_from(CMP)
unit = st.one_of(
    binop(ar, V.int_e, V.int_e), binop(ar, V.int_e, V.int_e), num_i,
    binop(ar, V.float_e, V.float_e), num_f,
    binop(cm, V.int_e, V.int_e), binop(cm, V.float_e, V.float_e), binop(cm, byte_any, byte_any),
    binop(cm, V.raw_str_e, V.raw_str_e), binop(cm, V.raw_str_e, V.raw_str_e),
    binop(st.just("++"), V.raw_str_e, V.raw_str_e),
    binop(st.just("++"), binop(st.just("++"), V.raw_str_e, V.raw_str_e), V.raw_str_e),
    binop(st.sampled_from(ARITH + CMP + ["++", "and", "or"]), leaf_any, leaf_any),
    binop(st.sampled_from(ARITH + CMP + ["++"]), scalar, scalar), binop(ar, scalar, scalar), binop(ar, scalar, scalar),
    binop(ar, st.one_of(V.float_e, V.int_e), scalar), binop(st.just("++"), V.raw_str_e, scalar), binop(st.just("++"), scalar, scalar),
    st.builds(lambda o, e: ["un", o, e], st.sampled_from(["-", "not"]), st.one_of(V.int_e, V.float_e, leaf_any)),
)


@st.composite
def units(draw):
    """One operator application: direct, through variables, or through collections."""
    e = draw(unit)
    how = draw(st.integers(0, 3))
    if e[0] == "bin" and how:
        a, b = e[2], e[3]
        if how == 1:
            body = [["let", "a", a], ["let", "b", b], ["return", ["bin", e[1], ["id", "a"], ["id", "b"]]]]
        elif how == 2:
            body = [["let", "a", ["arr", [a, b]]],
                    ["return", ["bin", e[1], ["idx", ["id", "a"], ["int", 0]], ["idx", ["id", "a"], ["int", 1]]]]]
        else:
            body = [["return", ["call", ["func", ["a", "b"],
                                         [["expr", ["bin", e[1], ["id", "a"], ["id", "b"]]]]], [a, b]]]]
        return body
    return [["return", e]]


def stmt(body):
    # The result, its type, and the hex of strings (which may hold any bytes).
    catch = ["call", ["dot", ["id", "std"], "catch"], [["func", [], body]]]
    return [println(["call", ["id", "show"], [catch]])]


PRELUDE = [["fn", "show", ["v"], [
    ["expr", ["if", ["bin", "==", ["call", ["dot", ["id", "std"], "type"], [["id", "v"]]], ["str", "string"]],
              [["expr", ["bin", "++", ["str", "s:"],
                         ["call", ["dot", ["dot", ["id", "std"], "hex"], "encode"], [["id", "v"]]]]]],
              [["expr", ["id", "v"]]]]]]]]


def strategy(tier):
    return st.lists(units(), min_size=1, max_size=20)


def prog(case):
    p = list(PRELUDE)
    for b in case:
        p += stmt(b)
    return p


def show(case):
    return render(prog(case)).text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    v = judge(prog(case), rt, nontrivial=lambda it: it.counts.get("caught", 0) < len(case))
    v.n = max(1, len(case))
    return v


MIN = ["bin", "-", ["un", "-", ["int", V.I64MAX]], ["int", 1]]
PINNED = [
    [[["return", ["un", "-", MIN]]], [["return", ["bin", "-", ["int", 0], MIN]]]],
]
