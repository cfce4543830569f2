"""Faults of every kind raised at the bottom of generated nests of calls, loops, iterators, methods and pending expressions, caught at any level or not at all, against the reference interpreter's message, place and state afterwards."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import vals as V
from lang.gen import Gen
from lang.progs import judge, println, std
from lang.syntax import render

WIDE = ["catches", "recursion"]
COUNTS = {"quick": 9000, "thorough": 250000}
RULE = ("a case is a sequence of 1 to 8 faults, each inside of 0 to 7 nested contexts, caught or (the last one) not, with the "
        "state printed after each; non-trivial: a fault occurs at least two contexts deep after a change of the state; "
        "each fault counts as one evaluation")
SAMPLE_LABELS = ("uncaught", "deep", "many catches", "in an iterator", "in a method", "pending expression", "caught twice")


def x(n):
    return ["id", n]


def call(f, *a):
    return ["call", f, list(a)]


def fun(ps, *body):
    return ["func", ps, list(body)]


FAULTS = [
    lambda g: ["bin", "+", ["int", g.i(0, 9)], ["str", "s"]],
    lambda g: ["bin", "+", ["int", V.I64MAX], ["int", g.i(1, 9)]],
    lambda g: ["bin", g.pick(["/", "%"]), ["int", g.i(0, 9)], ["int", 0]],
    lambda g: ["bin", "*", ["int", V.I64MAX], ["int", 2]],
    lambda g: ["idx", ["arr", [["int", 1]]], ["int", g.i(1, 9)]],
    lambda g: ["idx", ["arr", [["int", 1]]], ["un", "-", ["int", 1]]],
    lambda g: ["idx", ["arr", []], ["str", "a"]],
    lambda g: ["dot", ["dict", [["a", ["int", 1]]]], "missing"],
    lambda g: ["idx", ["dict", []], ["arr", [["int", 1]]]],
    lambda g: ["dot", ["nil"], "field"],
    lambda g: ["idx", ["str", "abc"], ["int", 3]],
    lambda g: ["dot", std("error", ["str", "e"], ["nil"]), "other"],
    lambda g: call(["int", 5]),
    lambda g: call(["nil"], ["int", 1]),
    lambda g: call(fun(["a"], ["expr", x("a")])),
    lambda g: call(fun([], ["expr", ["int", 1]]), ["int", 1], ["int", 2]),
    lambda g: ["un", "-", ["str", "a"]],
    lambda g: ["un", "not", ["int", 1]],
    lambda g: ["un", "-", V.int_expr(V.I64MIN)],
    lambda g: ["bin", "and", ["int", 1], ["true"]],
    lambda g: ["bin", "or", ["false"], ["nil"]],
    lambda g: ["bin", "<", ["nil"], ["int", 1]],
    lambda g: ["bin", "<", ["int", 1], ["float", "1.0"]],
    lambda g: ["bin", "++", ["str", "a"], ["int", 1]],
    lambda g: ["if", ["int", 0], [["expr", ["int", 1]]], None],
    lambda g: call(fun([], ["while", ["nil"], [["break"]]])),
    lambda g: call(fun([], ["for", "q", ["int", 1], []])),
    lambda g: call(fun([], ["for", "q", fun([], ["return", ["int", 1]]), []])),
    lambda g: call(fun([], ["for", "q", fun([], ["return", ["dict", []]]), []])),
    lambda g: call(fun([], ["for", "q", fun([], ["return", ["dict", [["finished", ["int", 1]]]]]), []])),
    lambda g: call(fun([], ["for", "q", fun([], ["return", ["dict", [["finished", ["false"]]]]]), []])),
    lambda g: call(fun([], ["for", "q", fun(["a"], ["return", ["nil"]]), []])),
    lambda g: call(fun([], ["set", ["idx", ["arr", []], ["int", 0]], ["int", 1]])),
    lambda g: call(fun([], ["set", ["dot", ["int", 1], "a"], ["int", 1]])),
    lambda g: call(fun([], ["set", ["dot", std("error", ["str", "a"], ["nil"]), "description"], ["str", "b"]])),
    lambda g: std("panic", g.pick([["str", "boom"], ["int", 1], ["nil"], ["arr", [["int", 1]]], ["str", "a\nb \"q\""], ["dict", [["a", ["nil"]]]],
                                   std("error", ["str", "inner"], ["int", 2]), x("log")])),
    lambda g: std("assert", ["false"]),
    lambda g: std("assert", ["int", 1]),
    lambda g: std("pop", ["arr", []]),
    lambda g: std("pop", ["nil"]),
    lambda g: std("push", ["dict", []], ["int", 1]),
    lambda g: std("len", ["int", 1]),
    lambda g: std("len"),
    lambda g: std("sort", ["str", "ba"]),
    lambda g: std("int", ["str", "x1"]),
    lambda g: std("float", ["nil"]),
    lambda g: std("catch", ["int", 1]),
    lambda g: std("catch"),
    lambda g: std("error", ["int", 1], ["nil"]),
    lambda g: std("iter", ["int", 1]),
    lambda g: std("range", ["int", 1], ["str", "a"], ["int", 1]),
    lambda g: std("typecheck", ["int", 1], ["str", "string"]),
    lambda g: std("typecheck", ["int", 1], ["str", "integer"]),
    lambda g: std("exit", ["int", g.pick([256, 1000])]),
    lambda g: std("exit", ["str", "0"]),
    lambda g: std("split", ["str", "a"], ["int", 1]),
    lambda g: std("bind", ["nil"], ["int", 1]),
    lambda g: std("contains", ["str", "a"], ["int", 1]),
    lambda g: std("import", ["str", "no/such.hsh"]),
    lambda g: std("substr", ["str", "a"], ["nil"], ["int", 1]),
    lambda g: ["dot", x("std"), "no_such_function"],
    lambda g: call(fun(["zv"], ["expr", ["cmd", "{ hx $zv }", [[5, "var", "zv"]], "badvar"]]), ["dict", []]),
    lambda g: call(fun(["zv"], ["return", ["cmd", "${ hx a; hx b$zv }", [[13, "var", "zv"]], "badvar"]]), fun([], ["return", ["nil"]])),
]


class Ctx:
    """Contexts around an expression; each changes the state before and (should it be reached) after."""

    def __init__(self, draw):
        self.g = Gen(draw, {}, 0, 0)
        self.k = 0
        self.labels = set()

    def bump(self):
        self.k += 1
        return ["expr", call(x("bump"), ["int", self.k])]

    def bumpe(self):
        self.k += 1
        return call(x("bump"), ["int", self.k])

    def wrap(self, e):
        g = self.g
        k = g.i(0, 17)
        v = "l%d" % self.k
        if k == 0:
            return call(fun([], self.bump(), ["let", v, ["arr", [["int", 1], ["int", 2]]]], ["return", e]))
        if k == 1:
            return call(fun(["a", "b"], ["let", v, ["bin", "+", x("a"), x("b")]], self.bump(), ["let", "r", e], self.bump(),
                            ["return", ["arr", [x(v), x("r")]]]), ["int", 1], ["int", g.i(0, 9)])
        if k == 2:
            self.labels.add("pending expression")
            return ["arr", [self.bumpe(), e, self.bumpe()]]
        if k == 3:
            self.labels.add("pending expression")
            return ["bin", g.pick(["+", "-", "==", "<"]), self.bumpe(), e]
        if k == 4:
            self.labels.add("pending expression")
            return call(x("three"), self.bumpe(), e, self.bumpe())
        if k == 5:
            self.labels.add("in a method")
            return call(["dot", ["dict", [["v", ["int", 3]], ["m", fun(["a"], ["set", ["dot", ["self"], "v"], x("a")], self.bump(),
                                                                        ["expr", std("push", x("log"), ["self"])] if g.chance(0) else self.bump(), ["return", e])]]], "m"], ["int", 4])
        if k == 6:
            self.labels.add("in a method")
            return call(std("bind", ["dict", [["q", ["int", 1]]]], fun([], ["set", ["dot", ["self"], "q"], ["int", 2]], self.bump(), ["let", "r", e],
                                                                       ["return", ["dot", ["self"], "q"]])))
        if k == 7:
            return ["if", ["true"], [self.bump(), ["let", v, ["int", 1]], ["let", v + "r", e], ["expr", x(v)]], [["expr", ["int", 0]]]]
        if k == 8:
            n = g.i(0, 3)
            return call(fun([], ["for", "i", std("range", ["int", 0], ["int", 4], ["int", 1]),
                                 [self.bump(), ["expr", ["if", ["bin", "==", x("i"), ["int", n]], [["let", "r", e]], None]]]],
                            ["return", x("n")]))
        if k == 9:
            return call(fun([], ["let", "w", ["int", 0]], ["while", ["bin", "<", x("w"), ["int", 3]],
                                                           [["set", x("w"), ["bin", "+", x("w"), ["int", 1]]], self.bump(), ["let", "r", e]]],
                            ["return", x("w")]))
        if k == 10:
            self.labels.add("in an iterator")
            it = fun([], ["set", x("c"), ["bin", "+", x("c"), ["int", 1]]], self.bump(),
                     ["expr", ["if", ["bin", "==", x("c"), ["int", g.i(1, 3)]], [["let", "r", e]], None]],
                     ["return", ["dict", [["finished", ["bin", ">=", x("c"), ["int", 3]]], ["value", x("c")]]]])
            return call(fun([], ["let", "c", ["int", 0]], ["for", "i", it, [self.bump()]], ["return", x("c")]))
        if k == 11:
            return std("catch", fun([], self.bump(), ["let", "r", e], self.bump(), ["return", x("r")]))
        if k == 12:
            # Recursion down to it.
            d = g.pick([1, 2, 5, 20, 60])
            if d >= 20:
                self.labels.add("deep")
            return call(fun([], ["fn", "rec", ["m"], [
                ["expr", ["if", ["bin", "==", x("m"), ["int", 0]], [["return", e]], None]],
                ["let", "here", ["arr", [x("m")]]], ["let", "r", call(x("rec"), ["bin", "-", x("m"), ["int", 1]])],
                ["return", ["arr", [x("here"), x("r")]] if d < 20 else x("here")]]], ["return", call(x("rec"), ["int", d])]))
        if k == 13:
            # A closure over a local outlives the fault.
            return call(fun([], ["let", "loc", ["int", g.i(0, 9)]],
                            ["expr", std("push", x("saved"), fun([], ["set", x("loc"), ["bin", "+", x("loc"), ["int", 1]]], ["return", x("loc")]))],
                            ["set", x("loc"), ["bin", "*", x("loc"), ["int", 10]]], ["let", "r", e], ["set", x("loc"), ["int", 0]], ["return", x("r")]))
        if k == 14:
            return ["dict", [["a", self.bumpe()], ["b", e], ["c", self.bumpe()]]]
        if k == 15:
            return call(fun([], ["let", "t", ["arr", [["int", 1], ["int", 2], ["int", 3]]]], ["set", ["idx", x("t"), ["int", 0]], self.bumpe()],
                            ["set", ["idx", x("t"), ["int", 1]], e], ["return", x("t")]))
        if k == 16:
            return ["idx", ["dict", [["z", self.bumpe()]]], ["call", x("id"), [e]]] if g.chance(50) else call(["if", ["bin", "==", e, ["nil"]], [["expr", x("id")]], [["expr", x("id")]]], self.bumpe())
        return ["try", e] if False else call(fun([], ["let", "z", ["try", e]], self.bump(), ["return", x("z")]))


PRE = [
    ["let", "n", ["int", 0]], ["let", "log", ["arr", []]], ["let", "d", ["dict", []]], ["let", "saved", ["arr", []]],
    ["fn", "bump", ["k"], [["set", x("n"), ["bin", "+", x("n"), ["int", 1]]], ["expr", std("push", x("log"), x("k"))],
                           ["set", ["idx", x("d"), ["str", "last"]], x("k")], ["return", x("n")]]],
    ["fn", "id", ["v"], [["return", x("v")]]],
    ["fn", "three", ["a", "b", "c"], [["return", ["arr", [x("a"), x("b"), x("c")]]]]],
    # Health: locals, recursion, closures still work.
    ["fn", "sum", ["m"], [["expr", ["if", ["bin", "==", x("m"), ["int", 0]], [["return", ["int", 0]]], None]], ["let", "k", x("m")],
                          ["let", "r", call(x("sum"), ["bin", "-", x("m"), ["int", 1]])], ["return", ["bin", "+", x("k"), x("r")]]]],
    ["fn", "state", [], [println(["str", "state"], x("n"), std("len", x("log")), x("d"), call(x("sum"), ["int", 20])),
                         ["for", "i", std("range", ["int", 0], std("len", x("saved")), ["int", 1]),
                          [["expr", ["if", ["bin", "<", x("i"), ["int", 4]], [println(call(["idx", x("saved"), x("i")]))], None]]]]]],
]


@st.composite
def cases(draw):
    c = Ctx(draw)
    g = c.g
    out = []
    n = g.i(1, 6)
    faults = 0
    deep = False
    for j in range(n):
        e = FAULTS[g.i(0, len(FAULTS) - 1)](g)
        faults += 1
        w = g.i(0, 6)
        for _ in range(w):
            e = c.wrap(e)
        deep = deep or w >= 2
        last = j == n - 1
        how = g.i(0, 9)
        if last and how < 4:
            c.labels.add("uncaught")
            out.append(println(["str", "before"]))
            k = g.i(0, 3)
            if k == 0:
                out.append(["let", "fin", e])
            elif k == 1:
                out.append(println(["str", "x"], e))
            elif k == 2:
                out.append(["expr", ["if", ["true"], [["let", "fin", ["int", 1]], println(["str", "in"], e)], None]])
            else:
                out.append(["for", "i", std("iter", ["arr", [["int", 7], ["int", 8]]]), [println(x("i")), ["let", "fin", e]]])
            out.append(println(["str", "never printed"]))
            break
        if how == 9:
            c.labels.add("many catches")
            m = g.pick([3, 30, 150])
            out += [["let", "cnt%d" % j, ["int", 0]],
                    ["for", "i", std("range", ["int", 0], ["int", m], ["int", 1]),
                     [["let", "r", std("catch", fun([], ["return", e]))],
                      ["expr", ["if", ["bin", "==", std("type", x("r")), ["str", "error"]],
                                [["set", x("cnt%d" % j), ["bin", "+", x("cnt%d" % j), ["int", 1]]]], None]]]],
                    println(x("cnt%d" % j))]
        elif how == 8:
            c.labels.add("caught twice")
            out.append(["let", "r%d" % j, std("catch", fun([], ["let", "in", std("catch", fun([], ["return", e]))] if False else
                                                           ["let", "inner", std("catch", fun([], ["return", e]))], c.bump(),
                                                           ["expr", std("panic", x("inner"))]))])
            out.append(println(x("r%d" % j)))
        elif how == 7:
            out.append(["let", "r%d" % j, std("catch", fun([], ["return", e]))])
            out.append(println(std("type", x("r%d" % j)), ["if", ["bin", "==", std("type", x("r%d" % j)), ["str", "error"]],
                                                           [["expr", ["arr", [["dot", x("r%d" % j), "description"], ["dot", x("r%d" % j), "context"]]]]], None]))
        elif how == 6:
            # In the middle of an expression.
            out.append(println(["arr", [["int", 1], std("catch", fun([], ["return", e])), ["int", 2]]],
                               ["bin", "+", ["int", 5], ["if", ["bin", "==", std("catch", fun([], ["return", e])), ["nil"]], [["expr", ["int", 1]]], [["expr", ["int", 2]]]]]))
        else:
            out.append(println(std("catch", fun([], ["return", e]))))
        out.append(["expr", call(x("state"))])
    return {"prog": PRE + out, "labels": sorted(c.labels), "faults": faults, "deep": deep}


def strategy(tier):
    return cases()


def show(case):
    if "raw" in case:
        return case["raw"]
    return render(case["prog"]).text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    if "raw" in case:
        o = rt.script(case["raw"])
        if o.rc != 127 or not o.err.startswith(b"Panic in t.hsh (line ") or o.err.count(b"\n") != 1:
            return fail({"why": "not a panic", "actual": o.brief()}, hang=o.hang)
        return Verdict(True)
    v = judge(case["prog"], rt, case["labels"], nontrivial=lambda it: case["deep"])
    v.n = case["faults"]
    return v
