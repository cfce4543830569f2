"""Chains of functions applying ? in every position to errors and other values, error contents read, aliased and assigned to, and std.has_error on generated nestings, against the reference interpreter."""
from hypothesis import strategies as st

from lang import vals as V
from lang.gen import Gen
from lang.progs import judge, println, std
from lang.syntax import render, safe_start

WIDE = ["tries", "has_error", "long_error"]
COUNTS = {"quick": 9000, "thorough": 250000}
RULE = ("a case is a program of 1 to 10 units: a chain of 1 to 6 functions with ? at a generated position over an error or "
        "another value, or operations on an error's content, or std.has_error of a generated value; non-trivial: an "
        "error is propagated, read or found at least once; each unit counts as one evaluation")
SAMPLE_LABELS = ("chain", "content", "has_error", "try returned", "generic", "caught")


def x(n):
    return ["id", n]


def fun(ps, *body):
    return ["func", ps, list(body)]


def call(f, *a):
    return ["call", f, list(a)]


class U:
    def __init__(self, draw):
        self.draw = draw
        self.g = Gen(draw, {}, 0, 0)
        self.k = 0

    def tr(self, e=None):
        self.k += 1
        return call(x("tr"), ["int", self.k], e or ["int", self.k])

    def site(self, e):
        """Statements of a function body in which e is evaluated and propagated if an error."""
        g = self.g
        t = ["try", e]
        k = g.i(0, 33)
        after = ["expr", self.tr()]
        before = ["expr", self.tr()]
        if k == 0:
            b = [["let", "r", t], after, ["return", x("r")]]
        elif k == 1:
            b = [["return", ["arr", [self.tr() for _ in range(g.i(0, 5))] + [t] + [self.tr() for _ in range(g.i(0, 3))]]]]
        elif k == 2:
            b = [["return", ["bin", g.pick(["==", "!=", "+", "<"]), self.tr(), t]]]
        elif k == 3:
            b = [["return", call(x("two"), t, self.tr())]]
        elif k == 4:
            b = [["return", t]]
        elif k == 5:
            b = [["expr", t], after, ["return", ["int", 1]]] if safe_start(t) else [["return", t]]
        elif k == 6:
            b = [["expr", ["if", ["bin", "==", t, ["nil"]], [["expr", self.tr()]], [["return", self.tr()]]]], after]
        elif k == 7:
            b = [["for", "i", std("range", ["int", 0], ["int", 3], ["int", 1]),
                  [["expr", self.tr()], ["expr", ["if", ["bin", "==", x("i"), ["int", g.i(0, 2)]], [["let", "z", t]], None]]]], after, ["return", ["int", 9]]]
        elif k == 8:
            b = [["let", "w", ["int", 0]], ["while", ["bin", "<", x("w"), ["int", 2]], [["set", x("w"), ["bin", "+", x("w"), ["int", 1]]], ["let", "z", t], after]],
                 ["return", x("w")]]
        elif k == 9:
            n, m = g.i(0, 5), g.i(0, 3)
            b = [["return", ["dict", [["k%d" % i, self.tr()] for i in range(n)] + [["t", t]] + [["l%d" % i, self.tr()] for i in range(m)]]]]
        elif k == 10:
            # Only the inner function returns.
            b = [["let", "in1", fun([], ["let", "r", t], after, ["return", ["str", "inner"]])], ["let", "got", call(x("in1"))],
                 println(["str", "caller goes on"], std("type", x("got"))), ["return", x("got")]]
        elif k == 11:
            b = [["let", "o", ["dict", [["m", fun([], ["let", "r", t], after, ["return", ["self"]])], ["v", ["int", 1]]]]],
                 ["let", "got", call(["dot", x("o"), "m"])], println(std("type", x("got"))), ["return", ["if", ["bin", "==", std("type", x("got")), ["str", "dict"]],
                                                                                                        [["expr", ["dot", x("got"), "v"]]], [["expr", x("got")]]]]]
        elif k == 12:
            b = [["let", "a", ["arr", [["int", 0], ["int", 1]]]], ["set", ["idx", x("a"), ["int", 1]], t], after, ["return", x("a")]]
        elif k == 13:
            b = [["let", "got", std("catch", fun([], ["let", "r", t], after, ["return", x("r")]))], println(["str", "catch gave"], std("type", x("got"))), ["return", x("got")]]
        elif k == 14:
            b = [["return", ["try", t]]]
        elif k == 15:
            b = [["return", ["dot", t, "a"]]] if g.chance(30) else [["let", "r", call(["call", x("wrapfn"), [t]])], after, ["return", x("r")]]
        elif k == 16:
            b = [["expr", ["if", ["true"], [["expr", ["if", ["true"], [["let", "q", t], after], None]], after], None]], ["return", ["int", 3]]]
        elif k == 17:
            b = [["let", "f", std("bind", ["int", 5], fun([], ["let", "r", t], ["return", ["self"]]))], ["let", "got", call(x("f"))],
                 println(std("type", x("got"))), ["return", ["try", x("got")]]]
        elif k == 18:
            b = [["return", ["bin", g.pick(["and", "or"]), self.tr([g.pick(["true", "false"])]), ["bin", "==", t, ["nil"]]]]]
        elif k == 19:
            b = [["let", "acc", ["arr", []]], ["expr", std("push", x("acc"), t)], after, ["return", x("acc")]]
        elif k == 20:
            b = [println(["str", "args"], *[self.tr() for _ in range(g.i(0, 5))], t, *[self.tr() for _ in range(g.i(0, 3))]), ["return", ["int", 2]]]
        elif k == 22:
            # The condition of a loop.
            b = [["while", ["bin", "==", t, ["int", 77]], [["expr", self.tr()], ["break"]]], after, ["return", ["int", 4]]]
        elif k == 23:
            # The condition of a loop, the second time only.
            b = [["let", "w", ["int", 0]], ["while", ["if", ["bin", "==", x("w"), ["int", 0]], [["expr", ["true"]]], [["expr", ["bin", "==", t, ["int", 77]]]]],
                                            [["set", x("w"), ["bin", "+", x("w"), ["int", 1]]], ["expr", self.tr()],
                                             ["expr", ["if", ["bin", ">", x("w"), ["int", 2]], [["break"]], None]]]], after, ["return", x("w")]]
        elif k == 24:
            # What is iterated.
            b = [["for", "i", std("iter", ["arr", [t, self.tr()]]), [["expr", self.tr()]]], after, ["return", ["int", 5]]]
        elif k == 25:
            # An iterator that fails.
            b = [["let", "n", ["int", 0]], ["for", "i", fun([], ["set", x("n"), ["bin", "+", x("n"), ["int", 1]]],
                                                            ["expr", ["if", ["bin", "==", x("n"), ["int", 2]], [["let", "z", t]], None]],
                                                            ["return", ["dict", [["finished", ["bin", ">", x("n"), ["int", 2]]], ["value", x("n")]]]]),
                                            [["expr", self.tr()]]], after, ["return", x("n")]]
        elif k == 26:
            b = [["let", "a", ["arr", [["int", 5], ["int", 6]]]], ["let", "r", ["idx", x("a"), ["if", ["bin", "==", t, ["nil"]], [["expr", ["int", 0]]], [["expr", ["int", 1]]]]]],
                 after, ["return", x("r")]]
        elif k == 27:
            # The place assigned to; the new value was evaluated before.
            b = [["let", "a", ["arr", [["int", 5], ["int", 6]]]], ["set", ["idx", x("a"), ["if", ["bin", "==", t, ["nil"]], [["expr", ["int", 0]]], [["expr", ["int", 1]]]]], self.tr()],
                 after, ["return", x("a")]]
        elif k == 28:
            b = [["let", "d", ["dict", []]], ["set", ["dot", call(["idx", call(x("two"), call(x("wrapfn"), x("d")), t), ["int", 0]]), "k"], self.tr()],
                 after, ["return", x("d")]]
        elif k == 29:
            b = [["return", ["un", "not", ["bin", "==", t, self.tr()]]]]
        elif k == 30:
            # A chain of conditions.
            b = [["return", ["if", ["bin", "==", self.tr(), ["int", 0]], [["expr", self.tr()]], [["expr", ["if", ["bin", "!=", t, ["int", 1]], [["expr", self.tr()]], [["expr", self.tr()]]]]]]]]
        elif k == 31:
            # Arguments after others, to a method.
            b = [["let", "o", ["dict", [["m", fun(["a", "b", "c"], ["return", ["arr", [x("a"), x("b"), x("c")]]])]]]],
                 ["let", "r", call(["dot", x("o"), "m"], self.tr(), t, self.tr())], after, ["return", x("r")]]
        elif k == 32:
            # Several loops out of.
            b = [["for", "i", std("range", ["int", 0], ["int", 2], ["int", 1]), [["while", ["true"], [
                ["for", "j", std("iter", ["arr", [["int", 1], ["int", 2]]]), [["expr", self.tr()], ["let", "z", t]]], ["break"]]], ["expr", self.tr()]]],
                 after, ["return", ["int", 6]]]
        else:
            b = [["let", "v", ["int", 1]], ["set", x("v"), t], after, ["return", x("v")]]
        return [before] + b

    def leaf(self):
        g = self.g
        k = g.i(0, 9)
        if k <= 5:
            return std("error", ["str", g.pick(["bad", "", "line\nbreak", "q\"q"])], self.draw(V.values(nan=False, max_leaves=3)))
        if k == 6:
            return x("shared")
        return self.draw(st.one_of(V.values(nan=False, max_leaves=3), st.just(["arr", [std("error", ["str", "inside"], ["nil"])]]),
                                   st.just(V.FUN_E)))

    def chain(self):
        g = self.g
        e = self.leaf()
        n = g.i(1, 5)
        stmts = []
        self.k += 1
        tag = self.k
        for j in range(n):
            f = "f%d_%d" % (tag, j)
            stmts.append(["let", f, fun([], *self.site(e))])
            e = call(x(f))
            if g.chance(15):
                # Handled here: the chain goes on with another value.
                e = call(fun([], ["let", "h", e], ["expr", ["if", ["bin", "==", std("type", x("h")), ["str", "error"]],
                                                            [println(["str", "handled"], ["dot", x("h"), "description"]), ["return", ["int", 0]]], None]],
                             ["return", x("h")]))
        stmts.append(println(["str", "result"], std("catch", fun([], ["return", e]))))
        return stmts

    def content(self):
        g = self.g
        self.k += 1
        c, e, f = "c%d" % self.k, "e%d" % self.k, "g%d" % self.k
        ctx = g.pick([["arr", [["int", 1]]], ["dict", [["k", ["int", 1]]]]]) if g.chance(60) else self.draw(V.values(nan=False, max_leaves=3))
        out = [["let", c, ctx], ["let", e, std("error", ["str", g.pick(["d", "", "desc"])], x(c))], ["let", f, x(e)]]
        if g.chance(50):
            # Passed through ? first.
            out += [["let", "t" + e, fun(["v"], ["let", "r", ["try", x("v")]], ["return", ["nil"]])],
                    ["set", x(f), call(x("t" + e), x(e))], println(["bin", "==", x(e), x(f)])]
        for _ in range(g.i(1, 6)):
            k = g.i(0, 9)
            fld = g.pick(["description", "context", "other"])
            if k == 0:
                s = println(std("catch", fun([], ["return", ["dot", x(f), fld]])))
            elif k == 1:
                s = println(std("catch", fun([], ["return", ["idx", x(f), g.pick([["str", fld], ["str", "Context"], ["int", 0], ["nil"], ["str", ""]])]])))
            elif k == 2:
                s = println(std("catch", fun([], ["set", ["dot", x(f), fld], ["int", 1]])))
            elif k == 3:
                s = println(std("catch", fun([], ["set", ["idx", x(f), ["str", fld]], ["nil"]])))
            elif k == 4:
                # The context is the very object given.
                s = println(std("catch", fun([], ["expr", std("push", ["dot", x(f), "context"], ["int", 7])], ["set", ["idx", x(c), ["int", 0]], ["int", 42]])))
            elif k == 5:
                s = println(std("catch", fun([], ["set", ["dot", ["dot", x(f), "context"], "k"], ["int", 5]])))
            elif k == 6:
                s = println(["bin", "==", x(e), std("error", ["dot", x(e), "description"], ["dot", x(e), "context"])],
                            ["bin", "==", x(e), std("error", ["str", "zz"], x(c))], std("type", x(e)), std("has_error", x(e)))
            elif k == 7:
                s = println(std("catch", fun([], ["return", self.draw(st.sampled_from([
                    ["bin", "+", x(e), ["int", 1]], call(x(e)), std("len", x(e)), std("iter", x(e)), ["un", "not", x(e)], ["bin", "<", x(e), x(e)]]))])))
            elif k == 8:
                s = println(std("error", ["str", "outer"], x(e)), ["dot", ["dot", std("error", ["str", "outer"], x(e)), "context"], "description"])
            else:
                s = println(["idx", ["arr", [x(e)]], ["int", 0]], ["dot", ["dict", [["a", x(e)]]], "a"])
            out.append(s)
        out.append(println(x(e), x(c)))
        return out

    def has_error(self):
        g = self.g
        v = self.draw(V.values(nan=True, errors=False, max_leaves=6))
        k = g.i(0, 3)
        if k:
            v = self.plant(v, std("error", ["str", "x"], ["nil"]) if k > 1 else std("catch", fun([], ["return", ["idx", ["arr", []], ["int", 0]]])))
        for _ in range(g.i(0, 5)):
            v = g.pick([["arr", [["int", 1], v]], ["arr", [v, ["nil"]]], ["dict", [["a", v]]], ["dict", [["a", ["nil"]], ["b", v]]]])
        self.k += 1
        n = "he%d" % self.k
        out = [["let", n, v], println(std("has_error", x(n)))]
        if g.chance(25):
            # As a key; in a function that captured it (not an item of it).
            out += [["let", n + "d", ["dict", []]], ["set", ["idx", x(n + "d"), x(n)], ["int", 1]], println(std("has_error", x(n + "d"))),
                    println(std("has_error", fun([], ["return", x(n)])))]
        if g.chance(15):
            out += [["let", n + "l", ["arr", []]], ["for", "i", std("range", ["int", 0], ["int", g.pick([10, 300])], ["int", 1]), [["expr", std("push", x(n + "l"), x("i"))]]],
                    ["expr", std("push", x(n + "l"), x(n))], println(std("has_error", x(n + "l")))]
        return out

    def plant(self, v, e):
        g = self.g
        if v[0] == "arr":
            i = g.i(0, len(v[1]))
            if i < len(v[1]) and g.chance(60):
                return ["arr", v[1][:i] + [self.plant(v[1][i], e)] + v[1][i + 1:]]
            return ["arr", v[1][:i] + [e] + v[1][i:]]
        if v[0] == "dict":
            if v[1] and g.chance(60):
                i = g.i(0, len(v[1]) - 1)
                return ["dict", v[1][:i] + [[v[1][i][0], self.plant(v[1][i][1], e)]] + v[1][i + 1:]]
            return ["dict", v[1] + [["zerr", e]]]
        return e


PRE = [
    ["fn", "tr", ["k", "v"], [println(["str", "tr"], x("k")), ["return", x("v")]]],
    ["fn", "two", ["a", "b"], [println(["str", "two"]), ["return", ["arr", [x("a"), x("b")]]]]],
    ["fn", "wrapfn", ["v"], [["return", fun([], ["return", x("v")])]]],
    ["let", "shared", std("error", ["str", "shared"], ["arr", []])],
]


@st.composite
def cases(draw):
    u = U(draw)
    g = u.g
    out, labels, n = [], set(), 0
    for _ in range(g.i(1, 6)):
        k = g.i(0, 5)
        name = "chain" if k <= 2 else "content" if k == 3 else "has_error" if k == 4 else "chain"
        labels.add(name)
        out += getattr(u, name)()
        n += 1
    return {"prog": PRE + out, "labels": sorted(labels), "n": n}


@st.composite
def generic(draw):
    g = Gen(draw, {"try": 10, "err": 6, "fn": 5, "catch": 3, "trace": 2, "float": 0, "jump": 4}, draw(st.integers(5, 25)), 1)
    return {"prog": g.program(3, 9, 3), "labels": ["generic"], "n": 1}


def strategy(tier):
    return st.integers(0, 4).flatmap(lambda k: generic() if k == 0 else cases())


def show(case):
    return render(case["prog"]).text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    v = judge(case["prog"], rt, case["labels"],
              nontrivial=lambda it: it.counts.get("try returned", 0) > 0 or bool({"content", "has_error"} & set(case["labels"])))
    v.n = case["n"]
    return v
