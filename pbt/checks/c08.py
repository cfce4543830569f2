"""Generated programs with static faults of every kind inserted at random nested places, against an independent resolver that lists the expected diagnostics with their places; faultless programs must be accepted and run as the reference interpreter says."""
import re
from collections import Counter

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.gen import Gen, NAMES
from lang.interp import static_errors
from lang.progs import judge, println, std, unshare
from lang.syntax import render, safe_start

from checks.c07 import Nest

COUNTS = {"quick": 12000, "thorough": 350000}
WIDE = ["faults"]
WIDE_EVERY = 200


def WIDE_JUDGE(prog, rt, labels):
    return evaluate_plain({"prog": prog, "labels": labels, "mode": "run"}, rt)


RULE = ("a case is a generated program, faultless or with 1 to 6 inserted static faults; non-trivial: it has at least one "
        "fault, or reuses names, keys or jumps in a way that is only just allowed")
SAMPLE_LABELS = ("undeclared", "duplicate", "key", "return", "self", "try", "break", "assign", "builtin", "tricky valid")


def blocks(prog):
    """All statement lists, each with (in_function, in_loop, names declared in that very scope)."""
    out = []

    def stmts(ss, fn, loop, names):
        out.append((ss, fn, loop, names))
        for s in ss:
            k = s[0]
            if k in ("let", "fn"):
                names.append(s[1])
            if k == "fn":
                stmts(s[3], True, False, list(s[2]))
            elif k == "for":
                expr(s[2], fn, loop)
                stmts(s[3], fn, True, [s[1]])
            elif k == "while":
                expr(s[1], fn, loop)
                stmts(s[2], fn, True, [])
            else:
                for x in s[1:]:
                    if isinstance(x, list):
                        expr(x, fn, loop)

    def expr(e, fn, loop):
        if not isinstance(e, list) or not e:
            return
        k = e[0]
        if k == "func":
            stmts(e[2], True, False, list(e[1]))
        elif k == "if":
            expr(e[1], fn, loop)
            stmts(e[2], fn, loop, [])
            if e[3] is not None:
                stmts(e[3], fn, loop, [])
        elif k == "dict":
            for _, x in e[1]:
                expr(x, fn, loop)
        elif k in ("arr",):
            for x in e[1]:
                expr(x, fn, loop)
        elif k == "call":
            expr(e[1], fn, loop)
            for x in e[2]:
                expr(x, fn, loop)
        else:
            for x in e[1:]:
                if isinstance(x, list):
                    expr(x, fn, loop)
    stmts(prog, False, False, ["std"])
    return out


def where(ss, i):
    """Places where a statement may be inserted: not after a return (it would be its value or dead)."""
    for j, s in enumerate(ss):
        if s[0] == "return":
            return min(i, j)
    return i


def wrap(draw, e):
    """An expression somewhere inside of another."""
    k = draw(st.integers(0, 9))
    if k == 0:
        return ["arr", [["int", 1], e]]
    if k == 1:
        return ["dict", [["k", e], ["l", ["int", 1]]]]
    if k == 2:
        return ["bin", draw(st.sampled_from(["+", "==", "and", "++", "<"])), ["int", 1], e]
    if k == 3:
        return ["bin", "or", e, ["true"]]
    if k == 4:
        return ["call", ["id", "id"], [e]]
    if k == 5:
        return ["if", e, [["expr", ["int", 1]]], None]
    if k == 6:
        return ["if", ["false"], [["expr", ["call", ["id", "id"], [e]]]], [["expr", ["int", 0]]]]
    if k == 7:
        return ["idx", ["arr", [["int", 1]]], e]
    if k == 8:
        return ["un", "not", e]
    return e


def sink(draw, e):
    """A statement holding an expression."""
    k = draw(st.integers(0, 4))
    if k == 0:
        return ["let", "z%d" % draw(st.integers(1000, 9999)), e]
    if k == 1:
        return ["while", ["bin", "and", ["false"], e], []]
    if k == 2:
        return ["for", "q", e, []]
    return println(e)


def cmd(draw, scope_vars):
    """A command block using variables and builtins in right and wrong places."""
    kind = draw(st.sampled_from(["{ ", "${ ", "&{ "]))
    text = kind
    marks = []

    def word(t):
        nonlocal text
        text += t

    def var(sep=" "):
        n = draw(st.sampled_from(list(scope_vars) + ["undeclared_v", "nope"]))
        word(sep)
        form = draw(st.integers(0, 3))
        if form == 0:
            marks.append([len(text), "var", n])
            word("$" + n)
        elif form == 1:
            marks.append([len(text), "var", n])
            word("${%s}" % n)
        elif form == 2:
            word('"pre ')
            marks.append([len(text), "var", n])
            word("$" + n + ' post"')
        else:
            word("x")
            marks.append([len(text), "var", n])
            word("${%s}y" % n)

    n = draw(st.integers(1, 3))
    for i in range(n):
        if i:
            word("; ")
        stages = draw(st.sampled_from([1, 1, 1, 2, 3]))
        head_bad = False
        for j in range(stages):
            if j:
                word(" | ")
            env = draw(st.integers(0, 4)) == 0
            builtin = draw(st.integers(0, 2)) == 0
            redir = draw(st.integers(0, 4)) == 0
            save = len(marks)
            if env and not head_bad:
                word("E=v")
                var("")
                word(" ")
            at = len(text)
            word(draw(st.sampled_from(["cd", "exec", "exec0", "spawn0", "alias"])) if builtin else "hx")
            bad = builtin and (kind != "{ " or stages > 1 or redir)
            for _ in range(draw(st.integers(0, 2))):
                if draw(st.booleans()):
                    word(" arg")
                else:
                    var()
            if redir:
                word(draw(st.sampled_from([" >", " >>", " <", " <<", " 2>", " 2>>"])))
                if draw(st.booleans()):
                    word(" file")
                else:
                    var()
            if draw(st.integers(0, 5)) == 0:
                word(" ?")
            if head_bad:
                # The rest of a pipeline headed by a builtin is not looked at.
                del marks[save:]
            elif bad:
                del marks[save:]
                marks.append([at, "builtin", None])
                if j == 0:
                    head_bad = True
    word(" }")
    return ["cmd", text, marks]


KINDS = ["undeclared", "undeclared", "late", "scope", "dup", "dup", "dupfor", "dupparam", "dupkey", "return", "self",
         "try", "break", "assign", "cmd", "cmd"]


def insert(draw, prog, kind):
    bs = blocks(prog)

    def pos(ss, lo=0):
        return where(ss, draw(st.integers(lo, len(ss))))

    if kind in ("return", "self", "try"):
        bs = [b for b in bs if not b[1]]
    if kind == "break":
        bs = [b for b in bs if not b[2]]
    ss, fn, loop, names = bs[draw(st.integers(0, len(bs) - 1))]
    if kind == "undeclared":
        n = draw(st.sampled_from(["undeclared", "nope", "Std", "print", "_", "v999", "self_", "lenn"]))
        e = ["id", n]
        k = draw(st.integers(0, 5))
        if k == 0:
            s = ["set", e, ["int", 1]]
        elif k == 1:
            s = ["set", ["idx", e, ["int", 0]], ["int", 1]]
        elif k == 2:
            s = ["set", ["dot", ["dot", e, "a"], "b"], wrap(draw, ["int", 1])]
        elif k == 3:
            s = println(["call", e, [["int", 1]]])
        elif k == 4:
            s = ["expr", ["func", ["pp"], [["return", wrap(draw, e)]]]]
            s = ["let", "z%d" % draw(st.integers(1000, 9999)), s[1]]
        else:
            s = sink(draw, wrap(draw, e))
        ss.insert(pos(ss), s)
    elif kind == "late":
        # Used before its declaration.
        n = "late%d" % draw(st.integers(1, 99))
        i = pos(ss)
        ss.insert(i, ["let", n, ["int", 1]])
        ss.insert(draw(st.integers(0, i)), sink(draw, wrap(draw, ["id", n])))
    elif kind == "scope":
        # Used after its scope ended.
        n = "gone%d" % draw(st.integers(1, 99))
        i = pos(ss)
        inner = draw(st.sampled_from([
            ["expr", ["if", ["true"], [["let", n, ["int", 1]]], None]],
            ["expr", ["if", ["false"], [], [["let", n, ["int", 1]]]]],
            ["while", ["false"], [["let", n, ["int", 1]]]],
            ["for", n, std("iter", ["arr", []]), []],
            ["let", "f" + n, ["func", [n], [["expr", ["id", n]]]]],
            ["fn", "f" + n, [], [["let", n, ["int", 2]]]],
            ["let", "f" + n, ["func", [], [["fn", n, [], []]]]],
        ]))
        ss.insert(i, inner)
        ss.insert(i + 1, sink(draw, wrap(draw, ["id", n])))
    elif kind == "dup":
        n = draw(st.sampled_from(names)) if names else "zz"
        s = draw(st.sampled_from([["let", n, ["int", 1]], ["let", n, None], ["fn", n, [], [["expr", ["int", 1]]]]]))
        if not names:
            ss.insert(0, ["let", n, ["int", 0]])
        ss.insert(pos(ss), unshare(s))
    elif kind == "dupfor":
        v = draw(st.sampled_from(["fv", "a", "b"]))
        ss.insert(pos(ss), ["for", v, std("iter", ["arr", []]), [["let", v, ["int", 1]], println(["id", v])]])
    elif kind == "dupparam":
        ps = [draw(st.sampled_from(["a", "b", "c"])) for _ in range(draw(st.integers(2, 4)))]
        f = ["func", ps, [["return", ["id", ps[0]]]]]
        ss.insert(pos(ss), ["let", "z%d" % draw(st.integers(1000, 9999)), f] if draw(st.booleans()) else
                  ["fn", "z%d" % draw(st.integers(1000, 9999)), ps, f[2]])
    elif kind == "dupkey":
        ks = [draw(st.sampled_from(["a", "b", "c", "std", "x"])) for _ in range(draw(st.integers(2, 4)))]
        d = ["dict", [[k, draw(st.sampled_from([["int", 1], ["dict", [["a", ["int", 1]], ["b", ["int", 2]]]],
                                                ["dict", [["a", ["int", 1]], ["a", ["int", 2]]]],
                                                ["arr", [["dict", [["x", ["nil"]]]]]],
                                                ["func", [], [["return", ["dict", [["a", ["int", 0]]]]]]]]))] for k in ks]]
        ss.insert(pos(ss), sink(draw, wrap(draw, unshare(d))))
    elif kind == "return":
        i = pos(ss)
        r = ["return", draw(st.sampled_from([None, ["int", 1]]))]
        w = draw(st.integers(0, 3))
        if w == 0:
            s = ["expr", ["if", ["true"], [r], None]]
        elif w == 1:
            s = ["while", ["true"], [r]]
        elif w == 2:
            s = ["for", "rv", std("iter", ["arr", []]), [["expr", ["if", ["true"], [], [r]]]]]
        else:
            if not ss or ss[-1][0] != "return":
                ss.append(["return", ["int", 1]])
            return
        ss.insert(i, unshare(s))
    elif kind == "self":
        ss.insert(pos(ss), sink(draw, wrap(draw, draw(st.sampled_from(
            [["self"], ["dot", ["self"], "x"], ["call", ["dot", ["self"], "f"], [["self"]]]])))))
    elif kind == "try":
        ss.insert(pos(ss), sink(draw, wrap(draw, ["try", draw(st.sampled_from(
            [["nil"], ["id", "id"], ["call", ["id", "id"], [["try", ["nil"]]]], ["id", "undeclared2"]]))])))
    elif kind == "break":
        b = ["break"]
        w = draw(st.integers(0, 3))
        if w == 0:
            s = ["expr", ["if", ["true"], [b], None]]
        elif w == 1:
            s = ["let", "z%d" % draw(st.integers(1000, 9999)), ["func", [], [["expr", ["if", ["true"], [b], None]]]]]
        elif w == 2:
            # In a function in a loop: still outside.
            s = ["while", ["false"], [["let", "bf", ["func", [], [b]]]]]
        else:
            s = b
        ss.insert(pos(ss), unshare(s))
    elif kind == "assign":
        lv = draw(st.sampled_from([
            ["int", 1], ["str", "a"], ["call", ["id", "id"], [["int", 1]]], ["bin", "+", ["id", "id"], ["int", 1]],
            ["arr", [["int", 1]]], ["dict", []], ["if", ["true"], [["expr", ["int", 1]]], None], ["nil"], ["true"],
            ["func", [], []], ["bin", "or", ["true"], ["idx", ["arr", []], ["int", 0]]],
            ["call", ["dot", ["id", "std"], "len"], [["arr", []]]], ["un", "not", ["id", "id"]]]))
        ss.insert(pos(ss), ["set", unshare(lv), sink_value(draw)])
    elif kind == "cmd":
        vs = [n for n in ("std", "id") + tuple(names)]
        ss.insert(pos(ss), ["let", "z%d" % draw(st.integers(1000, 9999)), cmd(draw, vs)])


def sink_value(draw):
    return draw(st.sampled_from([["int", 1], ["nil"], ["id", "id"], ["id", "undeclared3"]]))


@st.composite
def base(draw):
    if draw(st.booleans()):
        return Gen(draw, {"shadow": 8, "trace": 0, "fn": 4, "catch": 1}, draw(st.integers(2, 16)), 0).program(1, 6, 3)
    n = Nest(draw)
    n.budget = min(n.budget, 16)
    return n.program()


TRICKY = ["shadow", "keys", "jumps", "names", "std", "self", "late call", "loopvar"]


def tricky(draw, prog):
    """Constructs that are just allowed."""
    k = draw(st.sampled_from(TRICKY))
    n = draw(st.integers(1000, 9999))
    x = "t%d" % n
    if k == "shadow":
        s = [["let", x, ["int", 1]],
             ["expr", ["if", ["true"], [["let", x, ["int", 2]], println(["id", x])], [["let", x, ["int", 3]], println(["id", x])]]],
             ["for", x, std("range", ["int", 0], ["int", 2], ["int", 1]), [println(["id", x]),
                                                                          ["expr", ["if", ["true"], [["let", x, ["int", 5]], println(["id", x])], None]]]],
             ["let", "f" + x, ["func", [x], [["return", ["id", x]]]]],
             ["let", "g" + x, ["func", [], [["let", x, ["int", 9]], ["return", ["id", x]]]]],
             println(["id", x], ["call", ["id", "f" + x], [["int", 7]]], ["call", ["id", "g" + x], []])]
    elif k == "keys":
        inner = ["dict", [["a", ["int", 1]], ["b", ["dict", [["a", ["int", 2]]]]]]]
        d = ["dict", [["a", inner], ["b", unshare(inner)], ["c", ["arr", [["dict", [["a", ["nil"]]]], ["dict", [["a", ["true"]]]]]]],
                      ["std", ["func", [], [["return", ["dict", [["a", ["int", 1]]]]]]]], [x, ["if", ["true"], [["expr", ["dict", [["a", ["int", 4]]]]]], None]]]]
        s = [["let", x, d], println(["dot", ["dot", ["dot", ["id", x], "a"], "b"], "a"], ["dot", ["dot", ["id", x], x], "a"],
                                    ["dot", ["call", ["dot", ["id", x], "std"], []], "a"])]
    elif k == "jumps":
        s = [["let", x, ["func", [], [
            ["while", ["true"], [["let", "h", ["func", [], [["while", ["true"], [["break"]]], ["return", ["int", 4]]]]],
                                 println(["call", ["id", "h"], []]), ["break"]]],
            ["for", "q", std("range", ["int", 0], ["int", 3], ["int", 1]), [["expr", ["if", ["bin", "==", ["id", "q"], ["int", 1]], [["return", ["int", 8]]], None]]]],
            ["return", None]]]], println(["call", ["id", x], []])]
    elif k == "names":
        names = draw(st.permutations(["letx", "ifx", "end1", "do_", "functions", "returned", "breaker", "selfie", "nilly", "true_", "no", "nota", "an", "orb", "in_", "thenn", "x_end", "_", "_if", "A", "if_then"]))[:4]
        s = [["expr", ["if", ["true"], [["let", m, ["int", i]] for i, m in enumerate(names)] + [println(*[["id", m] for m in names])], None]],
             println(["dot", ["dict", [[names[0], ["int", 6]]]], names[0]])]
    elif k == "std":
        s = [["let", x, ["func", ["std"], [["return", ["id", "std"]]]]], println(["call", ["id", x], [["int", 3]]]),
             ["let", "h" + x, ["func", [], [["let", "std", ["int", 4]], ["return", ["id", "std"]]]]], println(["call", ["id", "h" + x], []])]
    elif k == "self":
        s = [["let", x, ["func", [], [["let", "i", ["func", [], [["return", ["self"]]]]], ["return", ["arr", [["self"], ["call", ["id", "i"], []]]]]]]],
             println(["call", ["id", x], []])]
    elif k == "late call":
        s = [["fn", x, ["n"], [["expr", ["if", ["bin", "<=", ["id", "n"], ["int", 0]], [["return", ["int", 0]]], None]],
                               ["return", ["call", ["id", x], [["bin", "-", ["id", "n"], ["int", 1]]]]]]],
             println(["call", ["id", x], [["int", 3]]]),
             ["let", "r" + x, ["func", [], [["expr", ["if", ["false"], [["expr", ["call", ["id", "r" + x], []]]], None]], ["return", ["int", 2]]]]],
             println(["call", ["id", "r" + x], []])]
    else:
        s = [["let", x, ["arr", []]], ["for", "i", std("range", ["int", 0], ["int", 2], ["int", 1]), [["expr", std("push", ["id", x], ["id", "i"])]]],
             ["for", "i", std("iter", ["id", x]), [println(["id", "i"])]], ["while", ["false"], [["let", "i", ["nil"]]]],
             ["expr", ["if", ["true"], [["let", "i", ["int", 1]], println(["id", "i"])], None]]]
    # At top level, after the prelude.
    prog[where(prog, len(prog)):where(prog, len(prog))] = unshare(s)


@st.composite
def cases(draw):
    prog = unshare(draw(base()))
    k = draw(st.integers(0, 9))
    labels = []
    if k <= 2:
        for _ in range(draw(st.integers(1, 3))):
            tricky(draw, prog)
        labels.append("tricky valid")
    if k >= 2:
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3, 6]))):
            insert(draw, prog, draw(st.sampled_from(KINDS)))
    for ss, _, _, _ in blocks(prog):
        for s in ss[1:]:
            # What would continue the statement before it.
            if s[0] == "expr" and not safe_start(s[1]):
                s[1] = ["call", ["id", "id"], [s[1]]]
            if s[0] == "set" and not safe_start(s[1]):
                s[1] = ["int", 1]
    return {"prog": prog, "labels": labels, "mode": draw(st.sampled_from(["run", "run", "check"]))}


def strategy(tier):
    return cases()


def show(case):
    return render(case["prog"]).text.decode("utf-8", "backslashreplace")


def has_cmd(x):
    if isinstance(x, list):
        if len(x) > 2 and x[0] == "cmd":
            return True
        return any(has_cmd(y) for y in x)
    return False


def evaluate_plain(case, rt):
    prog = unshare(case["prog"])
    r = render(prog)
    from lang.interp import Resolver
    kinds = sorted(set(k for k, _, _ in Resolver(prog).errors))
    labels = list(case["labels"]) + kinds
    expected = static_errors(prog, r)
    if not expected:
        labels.append("accepted")
        if has_cmd(prog):
            # Only checked: running it would start the commands.
            o = rt.script(r.text, flags=["--check"])
            if o.rc != 0 or o.err or o.out:
                return fail({"why": "a well-formed program is rejected", "actual": o.brief(), "script": show(case)},
                            labels=labels, hang=o.hang)
            return Verdict(True, labels=labels)
        return judge(prog, rt, labels, rendered=r, nontrivial=lambda it: bool(case["labels"]))
    o = rt.script(r.text, flags=["--check"] if case["mode"] == "check" else [])
    lines = o.err.decode("utf-8", "surrogateescape").splitlines()
    # Each diagnostic is expected once; more than 20 are summarised.
    ok = o.rc == 2 and o.out == b""
    if len(expected) <= 20:
        ok = ok and sorted(lines) == sorted(expected)
    else:
        labels.append("more than 20 faults")
        more = Counter(lines[:20]) - Counter(expected)
        ok = ok and len(lines) == 21 and not more and re.findall(r"\d+", lines[20]) == [str(len(expected) - 20)]
    if not ok:
        return fail({"why": "the diagnostics differ", "expected": expected, "actual": o.brief(), "script": show(case)},
                    labels=labels, hang=o.hang)
    return Verdict(True, labels=labels)


def evaluate(case, rt):
    return evaluate_plain(case, rt)


PINNED = [
    # Once: the keys of nested dict literals counted as duplicates of the outer ones.
    {"prog": [["let", "d", ["dict", [["a", ["dict", [["a", ["int", 1]]]]], ["b", ["dict", [["a", ["int", 2]]]]]]]],
              println(["dot", ["dot", ["id", "d"], "a"], "a"])], "labels": ["tricky valid"], "mode": "run"},
    # Once: statements before a return at top level were dropped along with their diagnostics.
    {"prog": [println(["id", "undeclared"]), ["return", ["int", 1]]], "labels": [], "mode": "run"},
    # Once: variables in assignments prefixed to builtins were not resolved.
    {"prog": [["let", "z", ["cmd", "{ E=v$nope cd x }", [[5, "var", "nope"]]]]], "labels": [], "mode": "check"},
]
