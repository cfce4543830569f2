"""Generated control flow in which every subexpression may leave a trace, against the trace, output and exit status of the reference interpreter."""
from hypothesis import strategies as st

from lang.gen import Gen
from lang.progs import judge, println, std
from lang.syntax import render

WIDE = ["while", "for", "elseif", "statements", "nested_blocks", "string_iter"]
COUNTS = {"quick": 9000, "thorough": 250000}
RULE = ("a case is a generated program of nested conditions, loops, short circuits, breaks, returns and traced "
        "subexpressions; non-trivial: it prints at least 6 trace or value lines and has a condition or loop")
SAMPLE_LABELS = ("break", "short circuit", "panics", "order", "loops", "exits", "jump inside an expression", "many iterations")


class Order(Gen):
    """Adds constructs in which the order of evaluation and the paths taken show."""

    def __init__(self, draw, feats, budget, wild):
        super().__init__(draw, feats, budget, wild)
        self.kinds = set()

    def tr(self, e):
        self.tid += 1
        return ["call", ["id", "tr"], [["int", self.tid], e]]

    def stmt(self, d=3):
        if self.chance(30) and self.block_depth < 4:
            self.budget -= 1
            k = self.pick(["order", "order", "loops", "exits", "logic", "blockval", "ladder", "many", "calls", "midjump", "midjump"])
            self.kinds.add(k)
            return getattr(self, "x_" + k)(d)
        return super().stmt(d)

    def te(self, t, d):
        """A traced expression, which may stand inside of a function."""
        old = self.loop_depth, self.fn_depth
        self.loop_depth = self.fn_depth = 0
        e = self.tr(self.expr(t, d))
        self.loop_depth, self.fn_depth = old
        return e

    def x_order(self, d):
        k = self.i(0, 9)
        n = self.bump()
        a, o = "arr%d" % n, "obj%d" % n
        if k == 0:      # assignment through index: value first, then object, then index
            return [["let", a, ["arr", [self.te("int", 1) for _ in range(3)]]],
                    ["set", ["idx", self.tr(["id", a]), self.tr(["int", self.i(0, 3)])], self.te("int", d - 1)],
                    println(["id", a])]
        if k == 1:
            return [["let", o, ["dict", [["m", self.te("int", 1)], ["n", ["arr", [["int", 1], ["int", 2]]]]]]],
                    ["set", ["dot", self.tr(["id", o]), "m"], self.te("int", d - 1)],
                    ["set", ["idx", ["dot", self.tr(["id", o]), "n"], self.te("int", 0)], self.te("int", d - 1)],
                    println(["dot", ["id", o], "m"])]
        if k == 2:      # receiver, then arguments, then the call
            return [["let", o, self.e_obj(1)],
                    println(["call", ["dot", self.tr(["id", o]), "add"], [self.te("int", d - 1)]],
                            ["call", ["idx", self.tr(["id", o]), self.tr(["str", "get"])], []])]
        if k == 3:      # callee, then arguments
            f = ["func", ["p", "q"], [println(["str", "body"]), ["expr", ["bin", "-", ["id", "p"], ["id", "q"]]]]]
            return [println(["call", self.tr(f), [self.te("int", d - 1), self.te("int", d - 1)]])]
        if k == 4:
            return [println(["dict", [["z", self.te("int", d - 1)], ["a", self.te("int", d - 1)],
                                      ["m", self.te("int", d - 1)]]])]
        if k == 5:
            return [println(["arr", [self.te(None, 1) for _ in range(self.i(2, 5))]])]
        if k == 6:
            op = self.pick(["+", "-", "*", "<", ">=", "==", "!=", "/", "%"])
            return [println(["bin", op, self.te("int", d - 1), self.te("int", d - 1)])]
        if k == 7:      # a fault in the middle: what precedes it ran, what follows did not
            bad = self.pick([["bin", "+", ["int", 1], ["nil"]], ["idx", ["arr", []], ["int", 0]], ["un", "-", ["true"]],
                             std("panic", ["int", 1]), ["call", ["nil"], []], ["dot", ["dict", []], "zz"]])
            items = [self.te("int", 1) for _ in range(self.i(1, 4))]
            items.insert(self.i(0, len(items)), bad)
            w = self.i(0, 3)
            e = (["arr", items] if w == 0 else ["call", ["id", "id"], items[:1] + items[1:]] if w == 1
                 else ["dict", [["k%d" % i, x] for i, x in enumerate(items)]] if w == 2 else std("println", *items))
            return [println(std("catch", ["func", [], [["return", e]]]))]
        if k == 8:      # argument effects are visible to later arguments
            v = "w%d" % n
            inc = ["call", ["func", [], [["set", ["id", v], ["bin", "+", ["id", v], ["int", 1]]],
                                         ["return", ["id", v]]]], []]
            return [["let", v, ["int", 0]],
                    println(["id", v], inc, ["id", v], inc, ["bin", "-", ["bin", "*", ["id", v], ["int", 10]], inc],
                            ["arr", [inc, ["id", v], inc]], ["id", v])]
        # a wrong callee or object is found before or after the arguments are evaluated
        bad = self.pick([["call", ["nil"], [self.te("int", 1)]], ["call", ["id", "id"], [self.te("int", 1), self.te("int", 1)]],
                         ["idx", self.tr(["nil"]), self.te("int", 1)], ["idx", self.tr(["arr", []]), self.te("str", 1)],
                         ["bin", "+", self.tr(["nil"]), self.te("int", 1)], ["bin", "<", self.tr(["true"]), self.te("int", 1)],
                         ["bin", "and", self.tr(["int", 1]), self.te("bool", 1)],
                         ["bin", "++", self.tr(["int", 1]), self.te("str", 1)]])
        return [println(std("catch", ["func", [], [["return", bad]]]))]

    def anyv(self):
        """A value of any type."""
        v = self.pick([["nil"], ["true"], ["false"], ["int", 0], ["int", 7], ["float", "2.5"], ["byte", 120], ["str", ""],
                       ["str", "s"], ["arr", []], ["arr", [["int", 1]]], ["dict", []], ["dict", [["finished", ["true"]]]],
                       std("error", ["str", "e"], ["int", 1])])
        return self.tr(v) if self.chance(30) else v

    def jump(self, loop):
        opts = [["return", self.te("int", 1)], ["return", None], ["return", self.anyv()], ["return", self.anyv()],
                ["expr", ["try", self.anyv()]], ["expr", ["try", std("error", ["str", "e"], ["nil"])]]]
        if loop:
            opts += [["break"], ["break"], ["break"]]
        return self.pick(opts)

    def x_loops(self, d):
        """Nested loops left at various points, inside of a function."""
        self.bump()
        n = self.n
        depth = self.i(1, 3)

        def level(k):
            v = "l%d_%d" % (n, k)
            here = ["bin", "==", ["id", v], ["int", self.i(0, 3)]]
            body = [println(["str", v], ["id", v])]
            if k + 1 < depth:
                inner = level(k + 1)
                if self.chance(30):
                    inner = [["expr", ["if", ["bin", "!=", ["id", v], ["int", self.i(0, 3)]], inner, None]]]
                body += inner
                body.append(println(["str", "after"], ["id", v]))
            if self.chance(70):
                j = [["expr", ["if", here, [self.jump(True)], None]]]
                if self.chance(30):
                    j = [["expr", ["if", ["true"], j, None]]]
                body[self.i(0, len(body)):0] = j
            if self.chance(50):
                return [["for", v, std("range", ["int", self.i(0, 1)], ["int", self.i(0, 4)], ["int", 1]), body],
                        println(["str", "end"], ["str", v])]
            inc = ["set", ["id", v], ["bin", "+", ["id", v], ["int", 1]]]
            cond = ["bin", "<", ["id", v], ["int", self.i(0, 4)]]
            if self.chance(40):
                cond = self.tr(cond)
            return [["let", v, ["un", "-", ["int", 1]]], ["while", cond, [inc] + body], println(["str", "end"], ["str", v])]
        fn = "lf%d" % n
        return [["fn", fn, [], level(0) + [["expr", ["id", "fn_result"]] if False else ["return", ["int", 99]]]],
                println(["str", "result"], ["call", ["id", fn], []])]

    def x_midjump(self, d):
        """A loop in a function, left from the middle of an expression."""
        n = self.bump()
        v = "mj%d" % n
        j = ["if", ["bin", "==", ["id", v], ["int", self.i(0, 3)]], [self.jump(True)], [["expr", self.te("int", 1)]]]
        if self.chance(20):
            j = ["if", self.te("bool", 1), [["expr", j]], [["expr", ["int", 4]]]]
        if self.chance(10):
            j = self.tr(j)
        k = self.i(0, 13)
        x, y = self.te("int", 1), self.te("int", 1)
        use = (
            lambda: [println(["arr", [x, j, y]])],
            lambda: [println(["dict", [["a", x], ["b", j], ["c", y]]])],
            lambda: [println(x, j, y)],
            lambda: [println(["call", ["func", ["p", "q"], [["expr", ["id", "p"]]]], [x, j]])],
            lambda: [println(["bin", "+", x, j])],
            lambda: [println(["bin", "-", j, x])],
            lambda: [println(["un", "-", j])],
            lambda: [println(["idx", ["arr", [x, y]], j])],
            lambda: [["let", "la", ["arr", [x, y]]], ["set", ["idx", ["id", "la"], j], x], println(["id", "la"])],
            lambda: [["let", "la", ["arr", [x, y]]], ["set", ["idx", ["id", "la"], ["int", 0]], j], println(["id", "la"])],
            lambda: [["let", "lb", j], println(["id", "lb"])],
            lambda: [["expr", ["if", ["bin", "==", j, x], [println(["str", "eq"])], [println(["str", "ne"])]]]],
            lambda: [["let", "ct", ["int", 0]],
                     ["while", ["bin", "<", ["id", "ct"], j], [["set", ["id", "ct"], ["bin", "+", ["id", "ct"], ["int", 1]]],
                                                              ["expr", ["if", ["bin", ">", ["id", "ct"], ["int", 3]], [["break"]], None]],
                                                              println(["str", "inner"], ["id", "ct"])]]],
            lambda: [["for", "fo", std("range", ["int", 0], j, ["int", 5]), [println(["str", "inner"], ["id", "fo"])]]],
        )[k]()
        body = [println(["str", "top"], ["id", v])] + use + [println(["str", "bottom"], ["id", v])]
        if self.chance(50):
            loop = [["for", v, std("range", ["int", 0], ["int", self.i(1, 4)], ["int", 1]), body]]
        else:
            loop = [["let", v, ["int", 0]],
                    ["while", ["bin", "<", ["id", v], ["int", self.i(1, 4)]],
                     [["set", ["id", v], ["bin", "+", ["id", v], ["int", 1]]]] + body]]
        if self.chance(30):
            loop = [["for", "ol", std("range", ["int", 0], ["int", 2], ["int", 1]), loop + [println(["str", "ol"], ["id", "ol"])]]]
        return [println(["call", ["func", [], loop + [println(["str", "after"]), ["return", ["int", 1]]]], []])]

    def x_exits(self, d):
        """Functions called in functions called in loops; each leaves itself only."""
        n = self.bump()
        inner = ["func", ["p"], [
            ["for", "q", std("range", ["int", 0], ["int", 3], ["int", 1]), [
                println(["str", "in"], ["id", "q"]),
                ["expr", ["if", ["bin", "==", ["id", "q"], ["id", "p"]], [self.jump(True)], None]]]],
            println(["str", "fell through"]), ["expr", ["id", "p"]]]]
        f = "ef%d" % n
        body = [println(["id", "w"], ["call", ["id", f], [["id", "w"]]])]
        if self.chance(50):
            body.append(["expr", ["if", self.te("bool", 1), [["break"]], [println(["str", "on"])]]])
        loop = ["for", "w", std("range", ["int", 0], ["int", self.i(1, 4)], ["int", 1]), body]
        if self.chance(30):
            loop = ["while", ["true"], [loop, ["break"]]]
        return [["let", f, inner], loop]

    def x_logic(self, d):
        def l(k):
            if k == 0 or self.chance(25):
                if self.chance(6):
                    return self.tr(self.pick([["int", 1], ["nil"], ["str", "x"]]))
                return self.tr([self.pick(["true", "false"])])
            if self.chance(20):
                return ["un", "not", l(k - 1)]
            return ["bin", self.pick(["and", "or"]), l(k - 1), l(k - 1)]
        return [println(std("catch", ["func", [], [["return", l(self.i(1, 4))]]]))]

    def x_blockval(self, d):
        """The value of blocks ending in each kind of statement."""
        def last():
            return self.pick([
                [], [["expr", self.te("int", 1)]], [["expr", self.anyv()]], [["return", self.anyv()]],
                [["for", "zz", std("iter", ["arr", [self.anyv()]]), [["return", ["id", "zz"]]]]], [["let", "zz", ["int", 5]]], [["let", "zz", ["int", 5]], ["expr", ["id", "zz"]]],
                [["while", ["false"], []]], [["for", "zz", std("range", ["int", 0], ["int", 2], ["int", 1]), [["expr", ["id", "zz"]]]]],
                [["let", "zz", ["int", 1]], ["set", ["id", "zz"], ["int", 7]]], [["fn", "zz", [], [["expr", ["int", 3]]]]],
                [["expr", ["int", 1]], ["expr", ["int", 2]]], [["return", ["int", 3]]], [["return", None]],
                [["expr", ["if", ["false"], [["expr", ["int", 1]]], None]]],
                [["expr", ["if", ["true"], [["expr", ["int", 1]]], None]]],
            ])
        body = last()
        for _ in range(self.i(0, 2)):
            body = [["expr", ["if", self.te("bool", 1), body, last() if self.chance(70) else None]]]
            if self.chance(20):
                body = [["let", "bv", ["nil"]]] + body
        return [println(["call", ["func", [], body], []])]

    def x_ladder(self, d):
        k = self.i(2, 6)
        e = None
        for i in range(k):
            c = self.te("bool", 1) if self.chance(60) else ["bin", "==", ["id", "lad"], ["int", i]]
            e = ["if", c, [["expr", ["str", "arm%d" % i] if self.chance(60) else self.anyv()]], [["expr", e]] if e else (
                [["expr", ["str", "else"]]] if self.chance(60) else None), "elseif"]
        v = "lr%d" % self.bump()
        return [["for", "lad", std("range", ["int", 0], ["int", self.i(1, k)], ["int", 1]),
                 [["let", v, e], println(["id", v])]]]

    def x_many(self, d):
        """Many iterations: the body runs exactly as often as it should."""
        n = self.bump()
        c = "c%d" % n
        m = self.pick([17, 63, 64, 65, 100, 127, 128, 255, 256, 257, 300, 1000, 1024])
        stop = self.i(0, m + 1)
        inc = ["set", ["id", c], ["bin", "+", ["id", c], ["int", 1]]]
        body = [inc]
        if self.chance(40):
            body.append(["expr", ["if", ["bin", "==", ["id", c], ["int", stop]], [["break"]], None]])
        k = self.i(0, 2)
        if k == 0:
            loop = ["while", ["bin", "<", ["id", c], ["int", m]], body]
        elif k == 1:
            loop = ["for", "x", std("range", ["int", 0], ["int", m], ["int", 1]), body]
        else:
            loop = ["while", ["true"], body + [["expr", ["if", ["bin", ">=", ["id", c], ["int", m]], [["break"]], None]]]]
        return [["let", c, ["int", 0]], loop, println(["id", c])]

    def x_calls(self, d):
        """Recursion with work before and after the recursive call."""
        n = "rc%d" % self.bump()
        k = self.i(0, 2)
        rec = ["call", ["id", n], [["bin", "-", ["id", "p"], ["int", 1]]]]
        pre, post = println(["str", "down"], ["id", "p"]), println(["str", "up"], ["id", "p"])
        stop = ["expr", ["if", ["bin", "<=", ["id", "p"], ["int", 0]], [["return", ["int", self.i(0, 5)]]], None]]
        if k == 0:
            body = [stop, pre, ["let", "r", rec], post, ["return", ["bin", "+", ["id", "r"], ["id", "p"]]]]
        elif k == 1:
            body = [stop, pre, ["return", rec]]
        else:
            body = [["expr", ["if", ["bin", "<=", ["id", "p"], ["int", 0]], [["expr", ["int", 0]]],
                              [pre, ["expr", rec]]]]]
        return [["fn", n, ["p"], body], println(["call", ["id", n], [["int", self.pick([0, 1, 3, 6, 40])]]])]


FEATS = {"if": 5, "loop": 5, "for": 5, "trace": 7, "logic": 5, "fn": 3, "catch": 2, "closure": 1, "coll": 2, "err": 0,
         "float": 0, "method": 1, "shadow": 1, "jump": 6}


@st.composite
def cases(draw):
    g = Order(draw, FEATS, draw(st.integers(4, 22)), draw(st.sampled_from([0, 0, 1, 3])))
    p = g.program(2, 8, 3)
    return {"prog": p, "kinds": sorted(g.kinds)}


def strategy(tier):
    return cases()


def show(case):
    return render(case["prog"]).text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    names = {"midjump": "jump inside an expression", "many": "many iterations", "calls": "recursion"}
    return judge(case["prog"], rt, [names.get(k, k) for k in case["kinds"]],
                 nontrivial=lambda it: len(it.stdout.split(b"\n")) > 6)
