"""Random operator trees printed with only the parentheses the table requires (and again with all of them), evaluated by a reference interpreter that works on the tree."""
from hypothesis import strategies as st

from lang import vals as V
from lang.gen import Gen
from lang.progs import judge, println, std
from lang.syntax import render

WIDE = ["operators"]
COUNTS = {"quick": 9000, "thorough": 250000}
RULE = ("a case is a program of 1 to 10 operator expressions, printed minimally parenthesised (one in three also with all "
        "the implied parentheses); non-trivial: some expression mixes at least two operators of different levels; each "
        "expression is one evaluation")

BOOL_VARS, INT_VARS, STR_VARS = ["p", "q"], ["a", "b", "c"], ["s", "t"]


class OpGen:
    def __init__(self, draw, ill):
        self.draw, self.ill = draw, ill
        self.ops = set()

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, xs):
        return xs[self.i(0, len(xs) - 1)]

    def e(self, t, d):
        if self.ill and self.i(0, 99) >= 100 - self.ill:
            t = self.pick(["int", "bool", "str", "nil"])
        if d <= 0:
            return self.leaf(t)
        k = self.i(0, 9)
        if k == 0:
            return self.leaf(t)
        if k == 1:
            return self.postfix(t, d)
        return getattr(self, t)(d)

    def leaf(self, t):
        if t == "int":
            return self.pick([["id", self.pick(INT_VARS)], ["int", self.i(0, 9)]])
        if t == "bool":
            return self.pick([["id", self.pick(BOOL_VARS)], ["true"], ["false"]])
        if t == "str":
            return self.pick([["id", self.pick(STR_VARS)], ["str", self.pick(["", "a", "ab", "1"])]])
        return ["nil"]

    def postfix(self, t, d):
        """Postfix operators over things holding values of type t."""
        key = {"int": "n", "bool": "f", "str": "w", "nil": "z"}[t]
        k = self.i(0, 6)
        self.ops.add("postfix")
        if k == 0:
            return ["dot", ["id", "o"], key]
        if k == 1:
            return ["idx", ["id", "o"], ["str", key]]
        if k == 2:
            return ["call", ["id", "g"], [self.e(t, d - 1)]]
        if k == 3:
            return ["idx", ["call", ["id", "g"], [["arr", [self.e(t, d - 1), self.e(t, d - 1)]]]], ["int", self.i(0, 1)]]
        if k == 4:
            return ["dot", ["dot", ["id", "o"], "o"], key]
        if k == 5:
            return ["try", self.e(t, d - 1)]
        return ["call", ["dot", ["id", "o"], "g"], [self.e(t, d - 1)]]

    def int(self, d):
        k = self.i(0, 5)
        if k == 0:
            self.ops.add("unary")
            return ["un", "-", self.e("int", d - 1)]
        op = self.pick(["+", "-", "*", "/", "%", "-", "+"])
        self.ops.add(op)
        return ["bin", op, self.e("int", d - 1), self.e("int", d - 1)]

    def str(self, d):
        self.ops.add("++")
        return ["bin", "++", self.e("str", d - 1), self.e("str", d - 1)]

    def nil(self, d):
        return self.postfix("nil", d)

    def bool(self, d):
        k = self.i(0, 7)
        if k == 0:
            self.ops.add("unary")
            return ["un", "not", self.e("bool", d - 1)]
        if k <= 2:
            op = self.pick(["and", "or"])
            self.ops.add(op)
            return ["bin", op, self.e("bool", d - 1), self.e("bool", d - 1)]
        if k <= 4:
            t = self.pick(["int", "bool", "str", "bool"])
            self.ops.add("==")
            return ["bin", self.pick(["==", "!="]), self.e(t, d - 1), self.e(t, d - 1)]
        t = self.pick(["int", "str"])
        self.ops.add("<")
        return ["bin", self.pick(["<", "<=", ">", ">="]), self.e(t, d - 1), self.e(t, d - 1)]


@st.composite
def cases(draw):
    es = []
    for _ in range(draw(st.integers(1, 10))):
        g = OpGen(draw, draw(st.sampled_from([0, 0, 0, 4, 12])))
        e = g.e(g.pick(["bool", "bool", "int", "str"]), g.i(2, 5))
        es.append([e, g.i(0, 2) == 0, len(g.ops)])
    vars_ = [draw(st.integers(0, 9)) for _ in INT_VARS] + [draw(st.booleans()) for _ in BOOL_VARS] + \
            [draw(st.sampled_from(["", "a", "b", "ba"])) for _ in STR_VARS]
    return {"es": es, "vars": vars_}


def strategy(tier):
    return cases()


def lit(v):
    if v is True or v is False:
        return ["true"] if v else ["false"]
    return ["int", v] if isinstance(v, int) else ["str", v]


def full(e):
    """The same expression with all implied parentheses."""
    k = e[0]
    if k == "bin":
        return ["par", ["bin", e[1], full(e[2]), full(e[3])]]
    if k == "un":
        return ["par", ["un", e[1], full(e[2])]]
    if k == "idx":
        return ["par", ["idx", full(e[1]), full(e[2])]]
    if k == "dot":
        return ["par", ["dot", full(e[1]), e[2]]]
    if k == "try":
        return ["par", ["try", full(e[1])]]
    if k == "call":
        # The object of a method call stays next to the method.
        f = e[1] if e[1][0] == "dot" else full(e[1])
        return ["par", ["call", f, [full(x) for x in e[2]]]]
    if k == "arr":
        return ["arr", [full(x) for x in e[1]]]
    return e


def prog(case):
    vs = case["vars"]
    p = [["let", n, lit(v)] for n, v in zip(INT_VARS + BOOL_VARS + STR_VARS, vs)]
    p.append(["fn", "g", ["v"], [["expr", ["id", "v"]]]])
    entries = [["n", ["id", "a"]], ["f", ["id", "p"]], ["w", ["id", "s"]], ["z", ["nil"]], ["g", ["id", "g"]]]
    p.append(["let", "o", ["dict", entries + [["o", ["dict", entries[:4]]]]]])
    for e, both, _ in case["es"]:
        for x in [e] + ([full(e)] if both else []):
            p.append(println(std("catch", ["func", [], [["let", "r", x], ["return", ["id", "r"]]]])))
    return p


def show(case):
    return render(prog(case)).text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    v = judge(prog(case), rt, nontrivial=lambda it: any(n >= 2 for _, _, n in case["es"]))
    v.n = len(case["es"])
    return v
