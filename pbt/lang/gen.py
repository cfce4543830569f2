"""Generators of Hush programs: mostly well-typed, every construct of the language, with traces.

All random choices are drawn from Hypothesis."""
from functools import lru_cache

from hypothesis import strategies as st

from .progs import println, std
from .syntax import safe_start

I64MAX = (1 << 63) - 1


@lru_cache(None)
def _ints(lo, hi):
    return st.integers(lo, hi)


@lru_cache(None)
def _sampled(xs):
    return st.sampled_from(xs)


BIG = [0, 1, 2, 3, 7, 10, 255, 256, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 62), (1 << 62) + 1, I64MAX - 1,
       I64MAX, 3037000499, 3037000500, 4611686018427387904]
FLOATS = ["0.0", "1.0", "0.5", "2.25", "1.5e3", "3.0", "1e15", "1e16", "1e300", "123456.789", "0.1", "0.2",
          "9007199254740993.0", "1e22", "0.000001", "0.00001", "7.0", "1e308", "2.5", "10.0", "4.35"]
STRS = ["", "a", "b", "ab", "hello", "x y", "a\nb", "tab\t", "q\"q", "back\\slash", "'", "0", "\xc3\xa9", "zz", "A"]
BYTES = [97, 98, 99, 120, 122, 48, 65]
NAMES = ["a", "b", "c", "x", "y", "k", "val", "n_1"]
BINARITH = ["+", "-", "*", "/", "%"]
BINCMP = ["<", "<=", ">", ">="]


class Gen:
    """draw: Hypothesis draw function. feats: dict of feature weights."""

    def __init__(self, draw, feats=None, budget=40, wild=3):
        self.draw = draw
        self.f = {
            "arith": 4, "cmp": 3, "logic": 3, "concat": 2, "if": 3, "loop": 3, "for": 3, "fn": 3, "closure": 3,
            "coll": 4, "catch": 2, "try": 2, "method": 2, "err": 1, "shadow": 2, "trace": 2, "float": 1,
            "jump": 0,
        }
        self.f.update(feats or {})
        self.budget = budget
        self.wild = wild            # per cent chance of an expression of an arbitrary type
        self.scopes = [[]]          # lists of (name, type)
        self.fn_depth = 0
        self.loop_depth = 0
        self.n = 0
        self.tid = 0
        self.block_depth = 0
        self.has_obj = False

    # -- choices ----------------------------------------------------------------------------------
    def i(self, lo, hi):
        return self.draw(_ints(lo, hi))

    def pick(self, xs):
        return xs[self.i(0, len(xs) - 1)]

    def chance(self, pct):
        return pct > 0 and self.i(0, 99) >= 100 - pct

    def weighted(self, opts):
        """opts: [(weight, value)]"""
        opts = [(w, v) for w, v in opts if w > 0]
        total = sum(w for w, _ in opts)
        r = self.i(0, total - 1)
        for w, v in opts:
            if r < w:
                return v
            r -= w
        return opts[-1][1]

    def fresh(self):
        self.n += 1
        if self.chance(self.f["shadow"] * 6):
            name = self.pick(NAMES)
            if all(n != name for n, _ in self.scopes[-1]):
                return name
        return "v%d" % self.n

    def vars(self, t):
        seen = set()
        out = []
        for sc in reversed(self.scopes):
            for n, ty in reversed(sc):
                if n not in seen:
                    seen.add(n)
                    if ty == t:
                        out.append(n)
        return out

    def declare(self, name, t):
        self.scopes[-1].append((name, t))

    # -- expressions ------------------------------------------------------------------------------
    TYPES = ["int", "bool", "str", "arr", "float", "byte", "dict", "nil", "err", "fn0"]

    def any_type(self):
        return self.weighted([(6, "int"), (3, "bool"), (3, "str"), (2, "arr"), (self.f["float"], "float"),
                              (1, "byte"), (2, "dict"), (1, "nil"), (self.f["err"], "err"), (1, "fn0")])

    def expr(self, t=None, d=3):
        if t is None:
            t = self.any_type()
        if self.wild and self.chance(self.wild):
            t = self.any_type()
        if d > 0 and self.chance(self.f["trace"] * 4):
            self.tid += 1
            return ["call", ["id", "tr"], [["int", self.tid], self.expr(t, d - 1)]]
        if d > 0 and (self.loop_depth or self.fn_depth) and self.chance(self.f["jump"]):
            return self.jump_expr(t, d - 1)
        if d > 0 and self.chance(self.f["if"] * 3):
            return self.if_expr(t, d - 1)
        if t == "int" and self.fn_depth and self.chance(self.f.get("self", 1)):
            return std("len", std("type", ["self"]))
        vs = self.vars(t)
        if vs and (d <= 0 or self.chance(35)):
            return ["id", self.pick(vs)]
        return getattr(self, "e_" + t)(d)

    def if_expr(self, t, d):
        c = self.expr("bool", d)
        a = self.value_block(t, d)
        b = self.value_block(t, d)
        if self.chance(20):
            c2 = self.expr("bool", d)
            b2 = self.value_block(t, d)
            return ["if", c, a, [["expr", ["if", c2, b, b2]]], "elseif"]
        return ["if", c, a, b]

    def jump_expr(self, t, d):
        """An expression that leaves the loop or function around it, depending on a condition."""
        opts = []
        if self.loop_depth:
            opts += [["break"]] * 2
        if self.fn_depth:
            opts += [["return", self.expr(None, min(d, 1))], ["return", None],
                     ["expr", ["try", std("error", ["str", "j"], ["int", self.i(0, 9)])]]]
        vs = self.vars("ctr") + self.vars("int")
        c = (["bin", "==", ["id", self.pick(vs)], ["int", self.i(0, 3)]] if vs and self.chance(60)
             else self.expr("bool", min(d, 1)))
        a, b = [self.pick(opts)], self.value_block(t, d)
        return ["if", c, b, a] if self.chance(30) else ["if", c, a, b]

    def value_block(self, t, d):
        """A block whose value is an expression of type t."""
        self.scopes.append([])
        self.block_depth += 1
        ss = []
        if d > 0 and self.budget > 0 and self.chance(20):
            ss += self.stmt(d - 1)
        e = self.expr(t, d)
        if ss and not safe_start(e):
            e = ["call", ["id", "id"], [e]]
        self.block_depth -= 1
        self.scopes.pop()
        return ss + [["expr", e]]

    def int_lit(self):
        if self.chance(85):
            return ["int", self.i(0, 12)]
        return ["int", self.pick(BIG)]

    def e_int(self, d):
        if d <= 0:
            return self.int_lit()
        k = self.weighted([(3, "lit"), (self.f["arith"], "bin"), (1, "neg"), (self.f["coll"], "len"),
                           (self.f["coll"], "idx"), (self.f["fn"], "call"), (self.f["method"], "meth")])
        if k == "bin":
            op = self.weighted([(4, "+"), (4, "-"), (2, "*"), (1, "/"), (1, "%")])
            return ["bin", op, self.expr("int", d - 1), self.expr("int", d - 1)]
        if k == "neg":
            return ["un", "-", self.expr("int", d - 1)]
        if k == "len":
            return std("len", self.expr(self.pick(["arr", "str", "dict"]), d - 1))
        if k == "idx":
            vs = self.vars("arr")
            if vs:
                return ["idx", ["id", self.pick(vs)], ["int", self.i(0, 3)]]
            return ["idx", ["arr", [self.expr("int", d - 1) for _ in range(self.i(1, 3))]], ["int", self.i(0, 2)]]
        if k == "call":
            fs = self.vars("fn1")
            if fs:
                return ["call", ["id", self.pick(fs)], [self.expr("int", d - 1)]]
            fs = self.vars("fn0")
            if fs:
                return ["call", ["id", self.pick(fs)], []]
        if k == "meth":
            os = self.vars("obj")
            if os:
                o = ["id", self.pick(os)]
                m = self.i(0, 3)
                if m == 0:
                    return ["call", ["dot", o, "get"], []]
                if m == 1:
                    return ["call", ["dot", o, "add"], [self.expr("int", d - 1)]]
                if m == 2:
                    return ["call", ["idx", o, ["str", "get"]], []]
                return ["dot", o, "v"]
        return self.int_lit()

    def e_float(self, d):
        if d <= 0 or self.chance(40):
            return ["float", self.pick(FLOATS)]
        k = self.i(0, 2)
        if k == 0:
            return ["un", "-", self.expr("float", d - 1)]
        return ["bin", self.pick(BINARITH), self.expr("float", d - 1), self.expr("float", d - 1)]

    def e_bool(self, d):
        if d <= 0:
            return [self.pick(["true", "false"])]
        k = self.weighted([(1, "lit"), (self.f["cmp"], "cmp"), (self.f["cmp"], "eq"), (self.f["logic"] * 2, "logic"),
                           (self.f["logic"], "not"), (self.f["coll"], "contains")])
        if k == "cmp":
            t = self.weighted([(4, "int"), (1, "str"), (self.f["float"], "float"), (1, "byte")])
            return ["bin", self.pick(BINCMP), self.expr(t, d - 1), self.expr(t, d - 1)]
        if k == "eq":
            t = self.any_type() if self.chance(50) else "int"
            t2 = t if self.chance(85) else self.any_type()
            if t == "fn0" or t2 == "fn0":
                t = t2 = "int"
            return ["bin", self.pick(["==", "!="]), self.expr(t, d - 1), self.expr(t2, d - 1)]
        if k == "logic":
            return ["bin", self.pick(["and", "or"]), self.expr("bool", d - 1), self.expr("bool", d - 1)]
        if k == "not":
            return ["un", "not", self.expr("bool", d - 1)]
        if k == "contains":
            m = self.i(0, 3)
            if m == 0:
                return std("contains", self.expr("arr", d - 1), self.expr("int", d - 1))
            if m == 1:
                return std("contains", self.expr("dict", d - 1), ["str", self.pick(NAMES)])
            if m == 2:
                return std("is_empty", self.expr(self.pick(["arr", "dict", "str"]), d - 1))
            return std("has_error", self.expr(None, d - 1))
        return [self.pick(["true", "false"])]

    def e_str(self, d):
        if d <= 0 or self.chance(40):
            return ["str", self.pick(STRS)]
        k = self.i(0, 3)
        if k == 0:
            return std("to_string", self.expr(self.pick(["int", "bool", "nil", "str"]), d - 1))
        if k == 1:
            return std("type", self.expr(None, d - 1))
        return ["bin", "++", self.expr("str", d - 1), self.expr("str", d - 1)]

    def e_byte(self, d):
        if d > 0 and self.chance(30):
            return ["idx", ["str", "hello"], ["int", self.i(0, 4)]]
        return ["byte", self.pick(BYTES)]

    def e_arr(self, d):
        return ["arr", [self.expr("int" if self.chance(80) else None, d - 1) for _ in range(self.i(0, 3))]]

    def e_dict(self, d):
        ks = []
        for _ in range(self.i(0, 2)):
            k = self.pick(NAMES)
            if k not in ks:
                ks.append(k)
        return ["dict", [[k, self.expr("int" if self.chance(70) else None, d - 1)] for k in ks]]

    def e_nil(self, d):
        return ["nil"]

    def e_err(self, d):
        return std("error", self.expr("str", min(d - 1, 1)), self.expr(None, min(d - 1, 1)))

    def e_fn0(self, d):
        return self.func([], d - 1, self.weighted([(5, "int"), (1, "bool"), (1, "nil")]))

    def e_fn1(self, d):
        return self.func(["p%d" % self.i(1, 3)], d - 1, "int")

    def e_obj(self, d):
        """An object with a counter and methods using self."""
        return ["dict", [
            ["v", self.expr("int", max(d - 1, 0))],
            ["get", ["func", [], [["expr", ["dot", ["self"], "v"]]]]],
            ["add", ["func", ["d"], [["set", ["dot", ["self"], "v"],
                                      ["bin", "+", ["dot", ["self"], "v"], ["id", "d"]]],
                                     ["return", ["dot", ["self"], "v"]]]]],
        ]]

    def func(self, params, d, rt):
        self.scopes.append([(p, "int") for p in params])
        old = (self.fn_depth, self.loop_depth)
        self.fn_depth += 1
        self.loop_depth = 0
        self.block_depth += 1
        body = []
        if d > 0:
            for _ in range(self.i(0, 2)):
                if self.budget > 0:
                    body += self.stmt(d)
        if self.chance(self.f["try"] * 8):
            body.append(["expr", ["try", self.expr("err" if self.chance(40) else None, d)]]
                        if False else ["let", "q%d" % self.bump(), ["try", self.expr("err" if self.chance(40) else None, d)]])
        e = self.expr(rt, d)
        if self.chance(50):
            body.append(["return", e])
        else:
            if body and not safe_start(e):
                e = ["call", ["id", "id"], [e]]
            body.append(["expr", e])
        self.block_depth -= 1
        self.fn_depth, self.loop_depth = old
        self.scopes.pop()
        return ["func", params, body]

    def bump(self):
        self.n += 1
        return self.n

    # -- statements -------------------------------------------------------------------------------
    def block(self, d, lo=0, hi=3):
        self.scopes.append([])
        self.block_depth += 1
        out = []
        for _ in range(self.i(lo, hi)):
            if self.budget <= 0:
                break
            out += self.stmt(d)
        self.block_depth -= 1
        self.scopes.pop()
        return out

    def stmt(self, d=3):
        """A list of statements (a construct may need several)."""
        self.budget -= 1
        f = self.f
        deep = self.block_depth < 4
        k = self.weighted([
            (4, "let"), (5, "print"), (3, "assign"), (f["if"] if deep else 0, "if"),
            (f["loop"] if deep else 0, "while"), (f["for"] if deep else 0, "for"), (f["fn"] if deep else 0, "fn"),
            (f["closure"] if deep else 0, "closure"), (f["coll"], "coll"), (f["catch"] if deep else 0, "catch"),
            (f["method"], "obj"), (1 if self.fn_depth and f["fn"] else 0, "return"),
            (1 if self.loop_depth else 0, "break"),
        ])
        return getattr(self, "s_" + k)(d)

    def s_let(self, d):
        t = self.any_type()
        if t == "fn0" and self.chance(50):
            t = "fn1"
        e = self.expr(t, d)
        name = self.fresh()
        self.declare(name, t)
        if self.chance(5):
            return [["let", name, None], ["set", ["id", name], e]]
        return [["let", name, e]]

    def s_print(self, d):
        return [println(*[self.expr(None if self.chance(50) else "int", d) for _ in range(self.i(1, 3))])]

    def s_assign(self, d):
        t = self.any_type()
        vs = self.vars(t)
        if not vs:
            return self.s_let(d)
        return [["set", ["id", self.pick(vs)], self.expr(t, d)]]

    def s_if(self, d):
        c = self.expr("bool", d)
        a = self.block(d - 1)
        b = self.block(d - 1) if self.chance(60) else None
        if b is not None and self.chance(25):
            return [["expr", ["if", c, a, [["expr", ["if", self.expr("bool", d), b,
                                                     self.block(d - 1) if self.chance(50) else None]]], "elseif"]]]
        return [["expr", ["if", c, a, b]]]

    def s_while(self, d):
        self.n += 1
        i = "i%d" % self.n
        self.declare(i, "ctr")
        self.loop_depth += 1
        body = [["set", ["id", i], ["bin", "+", ["id", i], ["int", 1]]]] + self.block(d - 1, 1, 3)
        self.loop_depth -= 1
        return [["let", i, ["int", 0]],
                ["while", ["bin", "<", ["id", i], ["int", self.i(0, 4)]], body]]

    def s_for(self, d):
        k = self.i(0, 2)
        t = "int"
        if k == 0:
            it = std("range", ["int", self.i(0, 3)], ["int", self.i(0, 6)], ["int", self.i(1, 3)])
        elif k == 1:
            it = std("iter", self.expr("arr", d - 1))
        else:
            it = std("iter", self.expr("str", d - 1))
            t = "byte"
        v = self.fresh()
        self.scopes.append([(v, t)])
        self.loop_depth += 1
        self.block_depth += 1
        body = []
        for _ in range(self.i(0, 3)):
            if self.budget <= 0:
                break
            body += self.stmt(d - 1)
        if self.chance(60):
            body.append(println(["str", "it"], ["id", v]))
        self.block_depth -= 1
        self.loop_depth -= 1
        self.scopes.pop()
        return [["for", v, it, body]]

    def s_fn(self, d):
        name = self.fresh()
        params = ["p%d" % i for i in range(self.i(0, 1))]
        f = self.func(params, d, "int")
        self.declare(name, "fn1" if params else "fn0")
        return [["fn", name, f[1], f[2]]]

    def s_closure(self, d):
        """A pair of closures sharing a captured variable, called in some order."""
        x = self.fresh()
        init = self.expr("int", 1)
        self.declare(x, "int")
        g, s = "g%d" % self.bump(), "s%d" % self.bump()
        out = [["let", x, init]]
        out.append(["let", g, ["func", [], [["expr", ["id", x]]]]])
        out.append(["let", s, ["func", ["w"], [["set", ["id", x], ["bin", "+", ["id", x], ["id", "w"]]],
                                               ["expr", ["id", x]]]]])
        self.declare(g, "fn0")
        self.declare(s, "fn1")
        for _ in range(self.i(1, 3)):
            m = self.i(0, 2)
            if m == 0:
                out.append(println(["call", ["id", g], []]))
            elif m == 1:
                out.append(println(["call", ["id", s], [self.expr("int", 1)]]))
            else:
                out.append(["set", ["id", x], self.expr("int", 1)])
        return out

    def s_coll(self, d):
        k = self.i(0, 5)
        arrs, dicts = self.vars("arr"), self.vars("dict")
        if k <= 2 and arrs:
            a = ["id", self.pick(arrs)]
            if k == 0:
                return [["expr", std("push", a, self.expr("int", d - 1))]]
            if k == 1:
                return [println(std("len", a), std("pop", a))] if self.chance(60) else [["expr", std("sort", a)]]
            return [["set", ["idx", a, ["int", self.i(0, 3)]], self.expr("int", d - 1)]]
        if k <= 4 and dicts:
            x = ["id", self.pick(dicts)]
            if k == 3:
                return [["set", ["dot", x, self.pick(NAMES)], self.expr("int", d - 1)]]
            return [["set", ["idx", x, self.expr(self.pick(["int", "str", "bool", "byte"]), d - 1)],
                     self.expr("int", d - 1)]]
        t = self.pick(["arr", "dict"])
        e = self.expr(t, d)
        name = self.fresh()
        self.declare(name, t)
        return [["let", name, e], println(["id", name])]

    def s_catch(self, d):
        self.scopes.append([])
        old = (self.fn_depth, self.loop_depth)
        self.fn_depth += 1
        self.loop_depth = 0
        self.block_depth += 1
        body = []
        for _ in range(self.i(1, 3)):
            body += self.stmt(d - 1)
        k = self.i(0, 4)
        if k == 0:
            body.append(["expr", std("panic", self.expr(None, 1))])
        elif k == 1:
            body.append(println(["idx", ["arr", []], ["int", 0]]))
        elif k == 2:
            q = ["str", self.pick(["x", "x", "a\nb", "\n", "\"\t\n\n\\"])]
            body.append(println(self.pick([["bin", "+", ["int", 1], q], ["bin", "+", ["int", 1], q], ["un", "-", q], ["call", q, []],
                                           ["idx", ["arr", [["int", 1]]], q], ["bin", "and", ["true"], q], ["bin", "<", q, ["int", 1]],
                                           ["idx", q, ["int", 9]], ["bin", "++", q, ["bin", "+", ["int", 2], q]]])))
        self.block_depth -= 1
        self.fn_depth, self.loop_depth = old
        self.scopes.pop()
        return [println(std("catch", ["func", [], body]))]

    def s_obj(self, d):
        os = self.vars("obj")
        if os and self.chance(70):
            o = ["id", self.pick(os)]
            k = self.i(0, 3)
            if k == 0:
                return [println(["call", ["dot", o, "add"], [self.expr("int", d - 1)]])]
            if k == 1:
                return [["set", ["dot", o, "v"], self.expr("int", d - 1)]]
            if k == 2:
                b = self.fresh()
                self.declare(b, "fn1")
                return [["let", b, std("bind", o, ["dot", o, "add"])]]
            return [println(["call", ["dot", o, "get"], []])]
        e = self.e_obj(d)
        name = self.fresh()
        self.declare(name, "obj")
        return [["let", name, e]]

    def s_return(self, d):
        # Only conditionally, so that what follows is not dead.
        return [["expr", ["if", self.expr("bool", 1), [["return", self.expr("int", d - 1)]], None]]]

    def s_break(self, d):
        return [["expr", ["if", self.expr("bool", 1), [["break"]], None]]]

    # -- programs ---------------------------------------------------------------------------------
    def program(self, lo=3, hi=12, d=3):
        out = prelude()
        n = self.i(lo, hi)
        while n > 0 and self.budget > 0:
            out += self.stmt(d)
            n -= 1
        # Final state of everything still in scope.
        for name, t in self.scopes[0]:
            if t in ("int", "bool", "str", "arr", "dict", "float", "nil", "err", "byte"):
                out.append(println(["str", name], ["id", name]))
        return out


def prelude():
    return [
        ["fn", "tr", ["k", "v"], [println(["str", "tr"], ["id", "k"]), ["expr", ["id", "v"]]]],
        ["fn", "id", ["v"], [["expr", ["id", "v"]]]],
    ]


@st.composite
def programs(draw, feats=None, budget=40, wild=3, lo=3, hi=12, d=3):
    return Gen(draw, feats, budget, wild).program(lo, hi, d)
