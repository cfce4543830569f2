"""Functions called in every syntactic form, as fields of dicts, arrays and errors, rebound, passed and nested, with any number of arguments, against the reference interpreter."""
from hypothesis import strategies as st

from lang import vals as V
from lang.gen import Gen
from lang.progs import judge, println, std
from lang.syntax import render, safe_start

WIDE = ["methods", "params", "chain"]
COUNTS = {"quick": 9000, "thorough": 250000}
RULE = ("a case is a program of 3 to 30 calls of generated methods through generated call forms, each printing what self was "
        "and the state of all objects; non-trivial: at least one call has an object and at least one has none; each call "
        "counts as one evaluation")
SAMPLE_LABELS = ("bind", "wrong arity", "nested function", "passed", "stored elsewhere", "array", "error context", "small object", "captures")
NAMES = ["m", "n", "p", "act"]


def x(n):
    return ["id", n]


def fun(ps, *body):
    return ["func", ps, list(body)]


def call(f, *a):
    return ["call", f, list(a)]


SELF = ["self"]


class Obj:
    def __init__(self, draw):
        self.draw = draw
        self.g = Gen(draw, {}, 0, 0)
        self.labels = set()
        self.objs = []      # (variable, kind, [method name or index])
        self.funs = []      # variables holding functions
        self.bare = set()   # dicts without a count
        self.k = 0
        self.calls = 0

    def new(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def params(self):
        return ["a", "b", "c", "e"][:self.g.pick([0, 0, 1, 1, 2, 3, 4])]

    def report(self):
        """What self is, without displaying objects that contain functions at length."""
        return println(["str", "self"], call(x("who"), SELF))

    def method(self, depth=2):
        g = self.g
        ps = self.params()
        body = [self.report()]
        if g.chance(40):
            # Variables of the outside and of its own, before self is first mentioned.
            self.labels.add("captures")
            pre = []
            for _ in range(g.i(1, 5)):
                n = g.pick(OUTER)
                pre.append(g.pick([["set", x(n), ["bin", "+", x(n), ["int", 1]]], println(["str", n], x(n)),
                                   ["let", self.new("own"), x(n)], println(x(n), x(g.pick(OUTER)), *[x(p) for p in ps])]))
            body = pre + body
        if ps:
            body.append(println(["str", "args"], *[x(p) for p in ps]))
        k = g.i(0, 11)
        if k == 0:
            body.append(["return", SELF])
        elif k == 1:
            body += [["expr", ["if", ["bin", "==", std("type", SELF), ["str", "dict"]],
                               [["set", ["dot", SELF, "count"], ["bin", "+", ["dot", SELF, "count"], ["int", 1]]]], None]],
                     ["return", ["int", g.i(0, 9)]]]
        elif k == 2 and depth:
            self.labels.add("nested function")
            body += [["let", "inner", self.method(depth - 1)], ["return", call(x("inner"), *[["int", 1]] * len(self.last))]]
        elif k == 3 and depth:
            self.labels.add("nested function")
            body += [["return", self.method(depth - 1)]]
        elif k == 4:
            # self kept for a nested function.
            self.labels.add("nested function")
            body += [["let", "this", SELF], ["return", call(fun([], ["return", ["arr", [call(x("who"), x("this")), call(x("who"), SELF)]]]))]]
        elif k == 5:
            # Another method of the same object.
            body += [["return", ["if", call(x("has"), SELF, ["str", "leaf"]), [["expr", call(["dot", SELF, "leaf"])]], None]]]
        elif k == 6:
            body += [["for", "i", std("range", ["int", 0], ["int", 2], ["int", 1]), [println(["str", "loop"], call(x("who"), SELF))]], ["return", SELF]]
        elif k == 7:
            # self among the values captured or stored.
            body += [["let", "keep", ["arr", [SELF]]], ["return", ["idx", x("keep"), ["int", 0]]]]
        elif k == 8 and depth:
            # Builds an object whose method has its own self.
            self.labels.add("nested function")
            body += [["let", "o2", ["dict", [["id", ["str", "inner object"]], ["count", ["int", 0]], ["go", fun([], self.report(), ["return", SELF])]]]],
                     ["expr", call(["dot", x("o2"), "go"])], self.report(), ["return", SELF]]
        elif k == 9:
            body += [["return", std("catch", fun([], self.report(), ["return", ["int", 3]]))]]
        else:
            body += [["expr", SELF]]
        self.last = ps
        return ["func", ps, body]

    def new_object(self):
        g = self.g
        v = self.new("o")
        k = g.i(0, 7)
        if k >= 6:
            # Nothing but methods, or nothing but one.
            self.labels.add("small object")
            items, arity = [], {}
            for m in g.draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2, unique=True)):
                items.append([m, self.method()])
                arity[m] = len(self.last)
            self.objs.append((v, "dict", arity))
            self.bare.add(v)
            return [["let", v, ["dict", items]]]
        if k <= 3:
            ms = g.draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
            items = [["id", ["str", v]], ["count", ["int", 0]], ["leaf", fun([], self.report(), ["return", ["str", "leaf"]])]]
            arity = {}
            for m in ms:
                items.append([m, self.method()])
                arity[m] = len(self.last)
            if self.objs and g.chance(40):
                items.append(["sub", x(g.pick(self.objs)[0])])
            self.objs.append((v, "dict", arity))
            return [["let", v, ["dict", items]]]
        if k == 4:
            self.labels.add("array")
            items, arity = [], {}
            for i in range(g.i(1, 3)):
                items.append(self.method())
                arity[i] = len(self.last)
            self.objs.append((v, "array", arity))
            return [["let", v, ["arr", items]]]
        self.labels.add("error context")
        f = self.method()
        self.objs.append((v, "error", {"context": len(self.last)}))
        return [["let", v, std("error", ["str", v], f)]]

    def new_fun(self):
        g = self.g
        v = self.new("f")
        k = g.i(0, 6)
        objs = self.objs
        if k <= 1 or not objs:
            f = self.method()
            self.funs.append((v, len(self.last)))
            return [["let", v, f]]
        o, kind, ar = g.pick(objs)
        m = g.pick(sorted(ar, key=str))
        acc = self.access(o, kind, m)
        if k == 2:
            # Taken out of its object: no self any more.
            self.labels.add("passed")
            self.funs.append((v, ar[m]))
            return [["let", v, acc]]
        self.labels.add("bind")
        to = self.pick_bound()
        self.funs.append((v, ar[m] if k < 6 else 1))
        if k == 3:
            return [["let", v, std("bind", to, acc)]]
        if k == 4 and self.funs:
            f, n = g.pick(self.funs[:-1]) if len(self.funs) > 1 else (None, 0)
            if f:
                # Binding again, or binding a function.
                self.funs[-1] = (v, n)
                return [["let", v, std("bind", to, x(f))]]
            return [["let", v, std("bind", to, acc)]]
        if k == 5:
            return [["let", v, std("bind", to, std("bind", self.pick_bound(), acc))]]
        self.funs[-1] = (v, 1)
        return [["let", v, std("bind", to, ["dot", x("std"), g.pick(["len", "type", "to_string"])])]]

    def pick_bound(self):
        g = self.g
        if self.objs and g.chance(70):
            return x(g.pick(self.objs)[0])
        return g.pick([["nil"], ["int", 5], ["str", "s"], ["arr", [["int", 1]]], ["dict", [["id", ["str", "literal"]], ["count", ["int", 0]]]], ["true"]])

    def access(self, o, kind, m):
        if kind == "array":
            return ["idx", x(o), ["int", m]]
        if self.g.chance(50):
            return ["dot", x(o), m]
        return ["idx", x(o), ["str", m]]

    def args(self, n):
        g = self.g
        if g.chance(12):
            self.labels.add("wrong arity")
            n = g.i(0, 5)
        return [g.pick([["int", g.i(0, 9)], ["str", "z"], ["nil"]]) if g.chance(80) else call(x("tr"), ["int", g.i(0, 9)]) for _ in range(n)]

    def the_call(self):
        g = self.g
        self.calls += 1
        k = g.i(0, 15)
        if self.funs and k <= 3:
            f, n = g.pick(self.funs)
            if k == 0:
                return call(x(f), *self.args(n))
            if k == 1:
                self.labels.add("passed")
                return call(fun(["q"], ["return", call(x("q"), *self.args(n))]), x(f))
            if k == 2:
                # Stored in another object and called as its method.
                self.labels.add("stored elsewhere")
                return call(["dot", ["dict", [["id", ["str", "holder"]], ["count", ["int", 0]], ["h", x(f)]]], "h"], *self.args(n))
            self.labels.add("array")
            return call(["idx", ["arr", [["nil"], x(f)]], ["int", 1]], *self.args(n))
        o, kind, ar = g.pick(self.objs)
        m = g.pick(sorted(ar, key=str))
        acc = self.access(o, kind, m)
        a = self.args(ar[m])
        if k <= 7:
            return call(acc, *a)
        if k == 8:
            return call(["par", acc], *a)
        if k == 9:
            # The result may be a function again: called without an object.
            return call(call(acc, *a), *self.args(g.i(0, 2)))
        if k == 10:
            return call(["if", ["true"], [["expr", acc]], None], *a)
        if k == 11 and kind == "dict":
            return call(["dot", ["dot", x(o), "sub"], g.pick(NAMES + ["leaf"])], *self.args(g.i(0, 2)))
        if k == 12:
            self.labels.add("passed")
            return call(fun(["q"], ["return", call(x("q"), *a)]), acc)
        if k == 13 and kind == "dict":
            o2, k2, ar2 = g.pick(self.objs)
            if k2 == "dict":
                # A method given to another object.
                self.labels.add("stored elsewhere")
                t = g.pick(NAMES)
                return call(fun([], ["set", ["dot", x(o2), t], acc], ["return", call(["dot", x(o2), t], *a)]))
        if k == 14:
            self.labels.add("bind")
            return call(std("bind", self.pick_bound(), acc), *a)
        if k == 15:
            return call(["dot", call(fun([], ["return", x(o)])), m] if kind != "array" else acc, *a)
        return call(acc, *a)

    def state(self):
        return println(["str", "counts"], *[["arr", [["dot", x(o), "count"], std("len", x(o))]] for o, k, _ in self.objs if k == "dict" and o not in self.bare],
                       *[["arr", [std("len", x(o))]] for o in sorted(self.bare)])

    def program(self):
        g = self.g
        out = list(PRE)
        for _ in range(g.i(1, 3)):
            out += self.new_object()
        for _ in range(g.i(2, 16)):
            k = g.i(0, 9)
            if k == 0 and len(self.objs) < 5:
                out += self.new_object()
            elif k <= 3:
                out += self.new_fun()
            else:
                out.append(println(["str", "result"], call(x("brief"), std("catch", fun([], ["return", self.the_call()])))))
                if g.chance(40):
                    out.append(self.state())
        # Everything bound or taken out still behaves the same at the end.
        for f, n in self.funs[:4]:
            self.calls += 1
            out.append(println(["str", "again"], call(x("brief"), std("catch", fun([], ["return", call(x(f), *[["int", 1]] * n)])))))
        out.append(self.state())
        out.append(println(["str", "outer"], *[x(n) for n in OUTER]))
        return out


OUTER = ["g1", "g2", "g3", "g4", "g5"]
PRE = [["let", n, ["int", 10 * (k + 1)]] for k, n in enumerate(OUTER)] + [
    ["fn", "who", ["v"], [
        ["let", "t", std("type", x("v"))],
        ["expr", ["if", ["bin", "==", x("t"), ["str", "dict"]],
                  [["return", ["if", std("contains", x("v"), ["str", "id"]), [["expr", ["dot", x("v"), "id"]]], [["expr", ["str", "a dict"]]]]]], None]],
        ["expr", ["if", ["bin", "==", x("t"), ["str", "array"]], [["return", ["bin", "++", ["str", "array of "], std("to_string", std("len", x("v")))]]], None]],
        ["expr", ["if", ["bin", "==", x("t"), ["str", "error"]], [["return", ["dot", x("v"), "description"]]], None]],
        ["return", std("to_string", x("v"))]]],
    ["fn", "brief", ["v"], [["return", call(x("who"), x("v"))]]],
    ["fn", "has", ["v", "k"], [["return", ["bin", "and", ["bin", "==", std("type", x("v")), ["str", "dict"]], std("contains", x("v"), x("k"))]]]],
    ["fn", "tr", ["k"], [println(["str", "tr"], x("k")), ["return", x("k")]]],
]
# has() evaluates std.contains only if v is a dict, thanks to "and".


@st.composite
def cases(draw):
    o = Obj(draw)
    p = o.program()
    return {"prog": p, "labels": sorted(o.labels), "calls": o.calls}


@st.composite
def generic(draw):
    g = Gen(draw, {"method": 10, "fn": 4, "closure": 1, "trace": 1, "float": 0, "jump": 2}, draw(st.integers(5, 25)), 2)
    return {"prog": g.program(3, 9, 3), "labels": ["generic"], "calls": 1}


def strategy(tier):
    return st.integers(0, 6).flatmap(lambda k: generic() if k == 0 else cases())


def show(case):
    return render(case["prog"]).text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    v = judge(case["prog"], rt, case["labels"], nontrivial=lambda it: case["calls"] >= 2)
    v.n = max(1, case["calls"])
    return v
