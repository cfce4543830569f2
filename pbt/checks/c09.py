"""Histories of operations on arrays and dicts reached through several aliases, nested and passed around, against Python lists and dicts."""
from hypothesis import strategies as st

from lang import vals as V
from lang.gen import Gen
from lang.progs import judge, println, std
from lang.syntax import render

WIDE = ["array", "dict", "strings", "equal"]
COUNTS = {"quick": 6000, "thorough": 250000}
RULE = ("a case is a history of 3 to 40 operations on up to 6 collections with aliases, each under std.catch, with the "
        "state of all collections printed along the way; non-trivial: at least one collection is changed through one "
        "alias and read through another, and at least 5 operations; each operation counts as one evaluation")
SAMPLE_LABELS = ("nested", "large", "caught", "iteration", "passed to a function", "alias", "replaced by an equal")
I = ["id", "i"]

scalar = st.one_of(V.small_int_e, V.small_int_e, V.int_e, V.num_float_e, V.bool_e, V.nil_e, V.byte_e, V.str_e)
key = st.one_of(
    st.sampled_from(V.NAMES).map(lambda s: ["str", s]), V.small_int_e, V.small_int_e, V.int_e, V.num_float_e, V.bool_e, V.nil_e,
    V.byte_e, V.str_e, V.array_e(V.small_int_e, 2), V.error_e(V.small_int_e), V.dict_e(V.small_int_e, 1),
    st.sampled_from([["float", "0.0"], ["un", "-", ["float", "0.0"]], ["float", "1.0"], ["int", 1], ["str", "1"], ["byte", 49],
                     ["true"], ["int", 0], ["str", ""], ["arr", []], ["dict", []], ["nil"]]),
    st.builds(lambda v: v, V.values(nan=False, raw=False, max_leaves=3)),
)
index = st.one_of(st.integers(0, 5).map(V.int_expr), st.integers(0, 5).map(V.int_expr), st.integers(0, 5).map(V.int_expr),
                  st.sampled_from([-1, -2, V.I64MAX, V.I64MIN, 1 << 32, 1 << 31, 6, 100, 1 << 63 - 1]).map(
                      lambda n: V.int_expr(min(n, V.I64MAX))),
                  scalar)


class Hist:
    def __init__(self, draw):
        self.draw = draw
        self.g = Gen(draw, {}, 0, 0)
        self.pick, self.i, self.chance = self.g.pick, self.g.i, self.g.chance
        self.vars = []          # (variable, container number)
        self.kind = []          # container number -> "a" | "d"
        self.labels = set()
        self.n = 0
        self.ops = 0

    def container(self, lit=None):
        """let vN = <literal of scalars or of lower containers>"""
        k = len(self.kind)
        kind = self.pick("ad")
        self.kind.append(kind)
        items = []
        for _ in range(self.i(0, 4)):
            lower = [v for v, c in self.vars if c < k]
            items.append(["id", self.pick(lower)] if lower and self.chance(30) else self.draw(scalar))
        if any(x[0] == "id" for x in items):
            self.labels.add("nested")
        v = self.new()
        self.vars.append((v, k))
        if kind == "a":
            return ["let", v, ["arr", items]]
        ks = []
        for x in items:
            n = self.pick(V.NAMES)
            if n not in [y[0] for y in ks]:
                ks.append([n, x])
        return ["let", v, ["dict", ks]]

    def new(self):
        self.n += 1
        return "v%d" % self.n

    def val(self, c):
        """A value to store in container c."""
        lower = [v for v, k in self.vars if k < c]
        if lower and self.chance(25):
            self.labels.add("nested")
            return ["id", self.pick(lower)]
        return self.draw(st.one_of(scalar, V.values(nan=False, max_leaves=3)))

    def target(self, want=None):
        xs = [(v, c) for v, c in self.vars if want is None or self.kind[c] == want]
        if not xs or self.chance(4):
            xs = self.vars
        v, c = self.pick(xs)
        return ["id", v], c

    def state(self):
        return println(["str", "state"], *[["id", v] for v, _ in self.vars])

    def catch(self, *body):
        return println(std("catch", ["func", [], list(body)]))

    def op(self):
        self.ops += 1
        k = self.pick(["aread", "aread", "awrite", "awrite", "push", "push", "push", "pop", "pop", "sort", "len", "contains",
                       "dread", "dread", "dwrite", "dwrite", "dwrite", "dotread", "dotwrite", "iter", "alias", "new",
                       "passed", "nestedop", "nestedop", "bulk", "eq", "strop", "overwrite", "drain", "replace"])
        return getattr(self, "o_" + k)()

    def o_aread(self):
        v, _ = self.target("a")
        return [self.catch(["return", ["idx", v, self.draw(index)]])]

    def o_awrite(self):
        v, c = self.target("a")
        return [self.catch(["set", ["idx", v, self.draw(index)], self.val(c)])]

    def o_push(self):
        v, c = self.target("a")
        return [self.catch(["return", std("push", v, self.val(c))])]

    def o_pop(self):
        v, _ = self.target("a")
        return [self.catch(["return", std("pop", v)])]

    def o_sort(self):
        v, _ = self.target("a")
        return [self.catch(["return", std("sort", v)])]

    def o_len(self):
        v, _ = self.target()
        return [println(std("len", v), std("is_empty", v))]

    def o_contains(self):
        v, _ = self.target()
        return [self.catch(["return", std("contains", v, self.draw(st.one_of(key, scalar)))])]

    def o_dread(self):
        v, _ = self.target("d")
        return [self.catch(["return", ["idx", v, self.draw(key)]])]

    def o_dwrite(self):
        v, c = self.target("d")
        k = self.draw(key)
        out = [self.catch(["set", ["idx", v, k], self.val(c)])]
        if self.chance(50):
            out.append(self.catch(["return", ["idx", v, k]]))
        return out

    def o_dotread(self):
        v, _ = self.target("d")
        return [self.catch(["return", ["dot", v, self.pick(V.NAMES)]])]

    def o_dotwrite(self):
        v, c = self.target("d")
        return [self.catch(["set", ["dot", v, self.pick(V.NAMES)], self.val(c)])]

    def o_iter(self):
        self.labels.add("iteration")
        v, c = self.target()
        if self.kind[c] == "a":
            return [self.catch(["for", "x", std("iter", v), [println(["str", "item"], ["id", "x"])]])]
        # The order of a dict is unspecified: as a sorted array of entries.
        acc = self.new()
        return [["let", acc, ["arr", []]],
                self.catch(["for", "e", std("iter", v), [["expr", std("push", ["id", acc], ["arr", [
                    ["dot", ["id", "e"], "key"], ["dot", ["id", "e"], "value"]]])]]],
                           ["expr", std("sort", ["id", acc])]),
                println(std("len", ["id", acc]), ["id", acc])]

    def o_alias(self):
        self.labels.add("alias")
        v, c = self.target()
        if self.chance(50):
            n = self.new()
            self.vars.append((n, c))
            return [["let", n, v]]
        # Variable now denotes another collection; the former one lives on elsewhere, or not.
        w, _ = self.pick(self.vars)
        self.vars = [(x, k) for x, k in self.vars if x != w] + [(w, c)]
        return [["set", ["id", w], v]]

    def o_new(self):
        return [self.container()] if len(self.kind) < 6 else self.o_len()

    def o_overwrite(self):
        """A fresh collection in the variable: aliases keep the old one."""
        w, c = self.pick(self.vars)
        lit = ["arr", [["int", self.i(0, 9)]]] if self.kind[c] == "a" else ["dict", [["a", ["int", self.i(0, 9)]]]]
        k = len(self.kind)
        # Holds scalars only and is as low as what it replaces.
        self.kind.append(self.kind[c])
        self.vars = [(x, y) for x, y in self.vars if x != w] + [(w, -1 if False else k)]
        return [["set", ["id", w], lit]]

    def o_passed(self):
        self.labels.add("passed to a function")
        v, c = self.target()
        if self.kind[c] == "a":
            body = [["expr", std("push", ["id", "p"], ["int", self.i(10, 99)])],
                    ["set", ["idx", ["id", "p"], ["int", 0]], ["str", "first"]]]
        else:
            body = [["set", ["dot", ["id", "p"], "a"], ["int", self.i(10, 99)]]]
        if self.chance(50):
            body.append(["set", ["id", "p"], ["arr", []]])
            body.append(["expr", std("push", ["id", "p"], ["int", 1])])
        how = self.i(0, 2)
        f = ["func", ["p"], body + [["return", ["id", "p"]]]]
        if how == 0:
            return [self.catch(["return", ["call", f, [v]]])]
        if how == 1:
            # Through a captured variable.
            return [self.catch(["let", "p", v], ["let", "f", ["func", [], body]], ["expr", ["call", ["id", "f"], []]],
                               ["return", ["id", "p"]])]
        # Through a field of another collection.
        box = self.new()
        return [["let", box, ["dict", [["c", ["arr", [["nil"], v]]]]]],
                self.catch(["let", "p", ["idx", ["dot", ["id", box], "c"], ["int", 1]]], *body)]

    def o_nestedop(self):
        """Operations on a member, whatever it is."""
        v, c = self.target()
        inner = ["idx", v, ["int", self.i(0, 3)]] if self.kind[c] == "a" else ["dot", v, self.pick(V.NAMES)]
        if self.chance(20):
            inner = ["idx", inner, ["int", self.i(0, 1)]]
        k = self.i(0, 6)
        if k == 0:
            return [self.catch(["return", ["idx", inner, self.draw(index)]])]
        if k == 1:
            return [self.catch(["set", ["idx", inner, self.draw(index)], self.draw(scalar)])]
        if k == 2:
            return [self.catch(["set", ["dot", inner, self.pick(V.NAMES)], self.draw(scalar)])]
        if k == 3:
            return [self.catch(["return", std("push", inner, self.draw(scalar))])]
        if k == 4:
            return [self.catch(["return", std("pop", inner)])]
        if k == 5:
            return [self.catch(["return", std("len", inner)])]
        return [self.catch(["return", std("contains", inner, self.draw(scalar))])]

    def o_bulk(self):
        """Many elements: growth, and lookups afterwards."""
        self.labels.add("large")
        n = self.pick([5, 16, 17, 33, 64, 100, 257, 500, 1000])
        r = self.new()
        mul = self.pick([1, 7, 31, 97])
        e = ["bin", "%", ["bin", "*", I, ["int", mul]], ["int", self.pick([101, 1009, 13])]]
        rng = std("range", ["int", 0], ["int", n], ["int", 1])
        probe = [["int", self.i(0, n)], ["int", n - 1], ["int", n], ["int", 0]]
        if self.chance(50):
            out = [["let", r, ["arr", []]], ["for", "i", rng, [["expr", std("push", ["id", r], e)]]]]
            if self.chance(60):
                out.append(["expr", std("sort", ["id", r])])
            out += [self.catch(["return", ["idx", ["id", r], p]]) for p in probe]
            out.append(println(std("contains", ["id", r], ["int", 12])))
            if n <= 100:
                out.append(println(["id", r]))
            out += [["for", "i", std("range", ["int", 0], ["int", n // 2], ["int", 1]), [["expr", std("pop", ["id", r])]]],
                    println(std("len", ["id", r])), self.catch(["return", ["idx", ["id", r], ["int", n // 2]]])]
            if n <= 300:
                out += [["while", ["un", "not", std("is_empty", ["id", r])], [println(std("pop", ["id", r]))]]]
            return out
        ke = self.pick([I, std("to_string", I), ["arr", [I, ["str", "k"]]], e, ["bin", "/", std("float", I), ["float", "2.0"]]])
        out = [["let", r, ["dict", []]], ["for", "i", rng, [["set", ["idx", ["id", r], ke], I]]],
               println(std("len", ["id", r]))]
        s = self.new()
        out += [["let", s, ["int", 0]],
                ["for", "i", rng, [["set", ["id", s], ["bin", "+", ["bin", "%", ["bin", "*", ["id", s], ["int", 31]], ["int", 1000003]],
                                                       ["idx", ["id", r], ke]]]]],
                println(["id", s]),
                println(std("contains", ["id", r], ["int", n - 1]), std("contains", ["id", r], ["str", str(n - 1)]),
                        std("contains", ["id", r], ["int", n]))]
        return out

    def o_drain(self):
        v, c = self.target("a")
        return [self.catch(["while", ["un", "not", std("is_empty", v)], [println(["str", "pop"], std("pop", v))]],
                           ["return", std("pop", v)])]

    def o_replace(self):
        """An item replaced by an equal, distinct collection: from then on it is that one."""
        self.labels.add("replaced by an equal")
        v, c = self.target()
        lit = self.pick([["arr", []], ["arr", [["int", 1]]], ["dict", []], ["dict", [["a", ["int", 1]]]], ["arr", [["arr", [["str", "in"]]]]]])
        old, new = self.new(), self.new()
        out = [["let", old, lit], ["let", new, lit]]

        def change(e):
            if lit[0] == "arr":
                return ["expr", std("push", e, ["int", self.i(0, 9)])]
            return ["set", ["dot", e, self.pick("abz")], ["int", self.i(2, 9)]]
        k = self.i(0, 3)
        if k == 0:
            p = self.new()
            out.append(["let", p, ["id", old]])
            place = ["id", p]
        elif self.kind[c] == "a":
            place = ["idx", v, ["int", self.i(0, 2)]]
        elif k == 1:
            place = ["dot", v, self.pick(V.NAMES)]
        else:
            place = ["idx", v, self.draw(key)]
        steps = [["set", place, ["id", old]], ["set", place, ["id", new]]]
        for _ in range(self.i(1, 3)):
            steps.append(change(self.pick([["id", old], ["id", new], place])))
        out.append(self.catch(*steps))
        out.append(println(["id", old], ["id", new]))
        out.append(self.catch(["return", place]))
        return out

    def o_eq(self):
        (a, c), (b, d) = self.target(), self.target()
        return [println(["bin", "==", a, b], ["bin", "!=", b, a])]

    def o_strop(self):
        s = ["str", self.pick(["", "hello", "ab"])]
        k = self.i(0, 4)
        if k == 0:
            return [self.catch(["return", ["idx", s, self.draw(index)]])]
        if k == 1:
            return [self.catch(["set", ["idx", s, self.draw(index)], ["byte", 97]])]
        if k == 2:
            return [self.catch(["set", ["idx", std("error", s, ["int", 1]), ["str", "context"]], ["int", 1]])]
        if k == 3:
            return [self.catch(["return", ["dot", self.draw(scalar), "a"]])]
        return [self.catch(["set", ["dot", self.draw(scalar), "a"], ["int", 1]])]

    def program(self):
        out = []
        for _ in range(self.i(1, 3)):
            out.append(self.container())
        if self.chance(70):
            v, c = self.target()
            n = self.new()
            self.vars.append((n, c))
            self.labels.add("alias")
            out.append(["let", n, v])
        every = self.i(1, 5)
        for j in range(self.i(2, 24)):
            out += self.op()
            if j % every == 0:
                out.append(self.state())
        out.append(self.state())
        return out


@st.composite
def cases(draw):
    h = Hist(draw)
    p = h.program()
    return {"prog": p, "labels": sorted(h.labels), "ops": h.ops}


def strategy(tier):
    return cases()


def show(case):
    return render(case["prog"]).text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    v = judge(case["prog"], rt, case["labels"], unordered_ok=True,
              nontrivial=lambda it: case["ops"] >= 5 and "alias" in case["labels"])
    v.n = max(1, case["ops"])
    return v
