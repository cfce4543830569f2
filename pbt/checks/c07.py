"""Generated nests of scopes, functions and closures over a few reused names, with closures stored, returned and called in any order, against a reference interpreter in which every variable is its own cell."""
from hypothesis import strategies as st

from lang.gen import Gen, prelude
from lang.progs import judge, println, std
from lang.syntax import render

WIDE = ["locals", "blocks", "captures", "params", "depth", "functions", "recursion", "nested_blocks"]
COUNTS = {"quick": 9000, "thorough": 250000}
RULE = ("a case is a generated program of nested scopes and functions over at most 6 names; non-trivial: at least one "
        "closure over a variable of an enclosing function is called after that variable was assigned again or after "
        "that function returned (the program stores and calls closures, or nests functions two deep)")
SAMPLE_LABELS = ("stored closures", "loop variable captured", "recursion", "3 levels", "parameter captured", "panics", "iterates its own name")
POOL = ["a", "b", "c", "x", "y", "z"]


class Nest:
    def __init__(self, draw):
        self.g = Gen(draw, {}, 10, 0)
        self.i, self.pick, self.chance = self.g.i, self.g.pick, self.g.chance
        self.scopes = [{}]          # name -> "int" | ("fn", arity) | "arr"
        self.budget = self.i(6, 34)
        self.level = 0              # nesting of functions
        self.labels = set()
        self.k = 0

    def visible(self, pred):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for n, t in sc.items():
                if n not in seen:
                    seen.add(n)
                    if pred(t):
                        out.append((n, t))
        return out

    def ints(self):
        return [n for n, _ in self.visible(lambda t: t == "int")]

    def fns(self):
        return self.visible(lambda t: isinstance(t, tuple))

    def new_name(self):
        free = [n for n in POOL if n not in self.scopes[-1]]
        if free and self.chance(85):
            return self.pick(free)
        self.k += 1
        return "v%d" % self.k

    def expr(self, d=2, call=True):
        vs = self.ints()
        k = self.i(0, 9)
        if self.level and k == 9 and self.chance(50):
            # The length of the name of its type: self is a variable as well.
            self.labels.add("self")
            return std("len", std("type", ["self"]))
        if d <= 0 or k <= 1 or not vs:
            return ["id", self.pick(vs)] if vs and self.chance(75) else ["int", self.i(0, 9)]
        if k <= 5:
            return ["bin", self.pick(["+", "+", "-"]), self.expr(d - 1, call), self.expr(d - 1, call)]
        fs = self.fns()
        if k <= 7 and fs and call:
            n, t = self.pick(fs)
            return ["call", ["id", n], [self.expr(d - 1, False) for _ in range(t[1])]]
        if k == 8:
            return ["if", ["bin", "<", self.expr(1, False), self.expr(1, False)], [["expr", self.ident(self.expr(1, call))]],
                    [["expr", self.ident(self.expr(1, call))]]]
        return ["id", self.pick(vs)]

    @staticmethod
    def ident(e):
        return ["call", ["id", "id"], [e]]

    def dump(self):
        vs = self.ints()[:4]
        self.k += 1
        return println(["str", "s%d" % self.k], *[["id", v] for v in vs])

    def body(self, lo, hi, depth):
        out = []
        for _ in range(self.i(lo, hi)):
            if self.budget <= 0:
                break
            out += self.stmt(depth)
        return out

    def func(self, params, depth):
        """A function; its body may use everything visible."""
        self.scopes.append({p: "int" for p in params})
        self.level += 1
        if self.level >= 3:
            self.labels.add("3 levels")
        if self.level >= 2 and params:
            self.labels.add("parameter captured")
        b = self.body(0, 4, depth - 1)
        if self.chance(60) and self.ints():
            v = self.pick(self.ints())
            b.append(["set", ["id", v], ["bin", "+", ["id", v], ["int", self.i(1, 3)]]])
        b.append(["return", self.expr(2)])
        self.level -= 1
        self.scopes.pop()
        return ["func", params, b]

    def params(self):
        ps = []
        for _ in range(self.i(0, 2)):
            p = self.pick(POOL)
            if p not in ps:
                ps.append(p)
        return ps

    def stmt(self, depth):
        self.budget -= 1
        opts = ["let", "let", "let", "set", "set", "set", "dump", "dump"]
        if depth > 0:
            opts += ["block", "block", "fn", "fn", "fn", "store", "store", "store", "loop", "rec", "factory", "deepcap"]
        if self.fns():
            opts += ["call", "call"]
        return getattr(self, "s_" + self.pick(opts))(depth)

    def s_let(self, depth):
        # The initial value may mention an outer variable of the same name only through
        # another name: the new one is in scope there already.
        n = self.new_name()
        self.scopes[-1][n] = "pending"
        e = self.expr()
        self.scopes[-1][n] = "int"
        if self.chance(6):
            return [["let", n, None], ["set", ["id", n], e]]
        return [["let", n, e]]

    def s_set(self, depth):
        vs = self.ints()
        if not vs:
            return self.s_let(depth)
        return [["set", ["id", self.pick(vs)], self.expr()]]

    def s_dump(self, depth):
        return [self.dump()]

    def s_block(self, depth):
        self.scopes.append({})
        b = self.body(1, 4, depth - 1)
        b.append(self.dump())
        self.scopes.pop()
        other = None
        if self.chance(40):
            self.scopes.append({})
            other = self.body(1, 3, depth - 1)
            self.scopes.pop()
        cond = ["true"] if self.chance(60) else ["bin", "<", self.expr(1), self.expr(1)]
        return [["expr", ["if", cond, b, other]]]

    def s_loop(self, depth):
        k = self.i(0, 1)
        if k == 0:
            it = std("range", ["int", 0], ["int", self.i(1, 4)], ["int", 1])
            v = self.pick(POOL)
            if self.chance(50):
                # What is iterated may use an outer variable of the same name.
                es = [self.expr(1, self.chance(30)) for _ in range(self.i(1, 3))]
                if v in self.ints() and self.chance(60):
                    es[self.i(0, len(es) - 1)] = ["id", v]
                    self.labels.add("iterates its own name")
                it = std("iter", ["arr", es])
                if self.chance(20):
                    it = ["call", ["func", [], [["return", it]]], []]
            self.scopes.append({v: "int"})
            b = self.body(1, 4, depth - 1)
            if self.chance(60):
                self.labels.add("loop variable captured")
                b.append(self.store(["func", [], [["set", ["id", v], ["bin", "+", ["id", v], ["int", 1]]],
                                                  ["return", ["id", v]]]]))
            if self.chance(30):
                b.append(["set", ["id", v], self.expr(1)])
                b.append(self.dump())
            self.scopes.pop()
            return [["for", v, it, b]]
        self.k += 1
        c = "i%d" % self.k
        self.scopes.append({})
        b = [["set", ["id", c], ["bin", "+", ["id", c], ["int", 1]]]] + self.body(1, 4, depth - 1)
        vs = [n for n, t in self.scopes[-1].items() if t == "int"]
        if vs and self.chance(60):
            self.labels.add("loop variable captured")
            v = self.pick(vs)
            b.append(self.store(["func", [], [["set", ["id", v], ["bin", "+", ["id", v], ["int", 10]]],
                                              ["return", ["id", v]]]]))
        self.scopes.pop()
        return [["let", c, ["int", 0]], ["while", ["bin", "<", ["id", c], ["int", self.i(1, 4)]], b]]

    def s_fn(self, depth):
        n = self.new_name()
        ps = self.params()
        self.scopes[-1][n] = "pending"
        f = self.func(ps, depth)
        self.scopes[-1][n] = ("fn", len(ps))
        return [["fn", n, f[1], f[2]]] if self.chance(60) else [["let", n, f]]

    def s_call(self, depth):
        n, t = self.pick(self.fns())
        return [println(["str", "r"], ["call", ["id", n], [self.expr(1, False) for _ in range(t[1])]])]

    def store(self, f):
        self.labels.add("stored closures")
        return ["expr", std("push", ["id", "fs"], f)]

    def s_store(self, depth):
        return [self.store(self.func([], depth))]

    def s_rec(self, depth):
        """Each activation has its own variables, also as captured."""
        self.labels.add("recursion")
        self.k += 1
        f, l = "rec%d" % self.k, self.pick(POOL)
        outer = self.ints()
        upd = [["set", ["id", self.pick(outer)], self.expr(1, False)]] if outer and self.chance(50) else []
        inner = ["func", [], [["set", ["id", l], ["bin", "+", ["id", l], ["int", 100]]], ["return", ["id", l]]]]
        body = [["let", l, ["bin", "*", ["id", "n"], ["int", 10]]] if l != "n" else ["let", "q", ["int", 0]],
                self.store(inner)] + upd + [
            ["expr", ["if", ["bin", ">", ["id", "n"], ["int", 0]],
                      [println(["str", "rec"], ["call", ["id", f], [["bin", "-", ["id", "n"], ["int", 1]]]])], None]],
            println(["str", "l"], ["id", l], ["id", "n"]),
            ["return", ["id", l]]]
        return [["fn", f, ["n"], body], ["expr", ["call", ["id", f], [["int", self.i(0, 4)]]]]]

    def s_factory(self, depth):
        """A function returning closures: distinct calls must not share."""
        self.labels.add("stored closures")
        self.k += 1
        f, l = "mk%d" % self.k, self.pick(POOL)
        get = ["func", [], [["return", ["id", l]]]]
        add = ["func", ["d"], [["set", ["id", l], ["bin", "+", ["id", l], ["id", "d"]]], ["return", ["id", l]]]]
        out = [["fn", f, [l], [["return", ["dict", [["get", get], ["add", add]]]]]]]
        n = self.i(1, 3)
        hs = []
        for j in range(n):
            h = "h%d_%d" % (self.k, j)
            hs.append(h)
            out.append(["let", h, ["call", ["id", f], [self.expr(1, False)]]])
        for _ in range(self.i(1, 6)):
            h = ["id", self.pick(hs)]
            out.append(println(["call", ["dot", h, "add"], [["int", self.i(1, 5)]]]) if self.chance(60)
                       else println(["call", ["dot", h, "get"], []]))
        return out

    def s_deepcap(self, depth):
        """A variable captured through functions which do not use it themselves."""
        self.labels.add("3 levels")
        vs = self.ints()
        if not vs:
            return self.s_let(depth)
        v = self.pick(vs)
        f = ["func", [], [["set", ["id", v], ["bin", "+", ["id", v], ["int", 1]]], ["return", ["id", v]]]]
        for j in range(self.i(1, 4)):
            pre = []
            if self.chance(50):
                pre.append(["let", "t%d" % j, ["int", self.i(0, 9)]])
            if self.chance(30):
                pre.append(["let", "u%d" % j, ["func", [], [["return", ["id", v]]]]])
            if self.chance(30):
                # Captured by an expression in the middle level too.
                pre.append(println(["str", "m"], ["id", v]))
            f = ["func", [], pre + [["return", ["call", f, []] if self.chance(50) else f]]]
        # Call until the value is an integer.
        self.k += 1
        r = "dc%d" % self.k
        return [["let", r, f],
                ["while", ["bin", "==", std("type", ["id", r]), ["str", "function"]],
                 [["set", ["id", r], ["call", ["id", r], []]]]],
                println(["id", r], ["id", v])]

    def program(self):
        out = prelude()[1:] + [["let", "fs", ["arr", []]]]
        if self.chance(50):
            out += self.body(3, 9, 4)
        else:
            # Everything inside of a function, whose variables outlive it.
            self.scopes.append({})
            self.level += 1
            b = self.body(3, 9, 5)
            b.append(self.dump())
            b.append(["return", self.expr(2)])
            self.level -= 1
            self.scopes.pop()
            out += [println(["call", ["func", [], b], []])]
        out += self.body(0, 3, 3)
        # Call the stored closures, in two orders, and show what they see.
        for order in ("up", "down")[:self.i(1, 2)]:
            n = ["id", "ix"]
            idx = n if order == "up" else ["bin", "-", ["bin", "-", ["id", "total"], ["int", 1]], n]
            out += [["expr", ["if", ["true"], [
                ["let", "total", std("len", ["id", "fs"])],
                ["for", "ix", std("range", ["int", 0], ["id", "total"], ["int", 1]),
                 [println(["str", "fs"], ["id", "ix"], ["call", ["idx", ["id", "fs"], idx], []])]]], None]]]
        out.append(self.dump())
        return out


@st.composite
def nests(draw):
    n = Nest(draw)
    p = n.program()
    return {"prog": p, "labels": sorted(n.labels)}


@st.composite
def generic(draw):
    g = Gen(draw, {"closure": 8, "fn": 6, "shadow": 10, "catch": 1, "coll": 2, "trace": 0, "jump": 2}, draw(st.integers(5, 30)), 1)
    return {"prog": g.program(3, 10, 3), "labels": ["generic"]}


def strategy(tier):
    return st.integers(0, 4).flatmap(lambda k: generic() if k == 0 else nests())


def show(case):
    return render(case["prog"]).text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    ls = set(case["labels"])
    return judge(case["prog"], rt, case["labels"],
                 nontrivial=lambda it: bool(ls & {"stored closures", "3 levels", "recursion", "generic"}))
