"""Pools of generated values and near-duplicates of them: the full equality, membership and dict-key matrices, and sorting, against structural equality and the order of the reference model."""
import functools
import json
import math

from hypothesis import strategies as st

from core.engine import Verdict
from lang import vals as V
from lang.progs import judge, println, std
from lang.syntax import render

WIDE = ["sort", "strings", "equal"]
COUNTS = {"quick": 4500, "thorough": 200000}
RULE = ("a case is a pool of 2 to 12 values, built from literals or step by step, for which all pairwise equalities, "
        "memberships and dict-key identities are printed, or an array to sort; non-trivial: the pool has two "
        "different values of one type or two equal values; each pair counts as one evaluation")
SAMPLE_LABELS = ("near duplicates", "nan", "functions", "sort", "large sort", "built in steps", "deep", "big")
ASSUMPTIONS = ["functions written in Hush are equal if they come from the same text and captured equal values; native functions with "
               "hidden state (std.bind, iterators) are not compared"]


def leaf_mutations(e):
    k = e[0]
    if k == "int":
        return [["float", "%d.0" % e[1]] if e[1] < 1 << 50 else ["int", e[1] - 1], ["str", str(e[1])], ["int", min(e[1] + 1, V.I64MAX)],
                ["byte", 48 + e[1]] if e[1] < 10 else ["nil"], ["un", "-", e], ["int", (e[1] + 2 ** 32) & V.I64MAX],
                ["int", e[1] ^ 2 ** 62], ["int", e[1] & 0xffffffff], V.float_expr(float(e[1])), V.float_expr(float(e[1] + 1))]
    if k == "float" or (k == "call" and e[1] == ["dot", ["id", "std"], "float"]):
        f = float(e[1] if k == "float" else e[2][0][1])
        if not math.isfinite(f):
            return [["float", "1.7976931348623157e308"], ["un", "-", e], NAN]
        return [["int", 0], ["un", "-", e], ["float", "0.0"], ["float", "1e999"], V.float_expr(math.nextafter(f, math.inf)),
                V.float_expr(math.nextafter(f, -math.inf)), V.float_expr(f / 2), V.float_expr(f + 1), V.float_expr(float(int(f))),
                V.int_expr(int(f)) if abs(f) < 2 ** 62 else ["nil"], V.float_expr(f * 1e-300), V.float_expr(5e-324)]
    if k == "str":
        return [["str", e[1] + "a"], ["str", e[1][:-1]], ["byte", ord(e[1][0])] if e[1] and ord(e[1][0]) < 127 and e[1][0] not in "\n\t\\'" else ["nil"],
                ["str", e[1].upper() if e[1].isascii() else ""], ["arr", []], ["str", e[1] + "\0"],
                ["str", "\0" + e[1]], ["str", e[1][::-1]], ["str", e[1] + e[1]], ["str", e[1] + "\xff"], ["str", e[1].strip()],
                ["str", e[1][:len(e[1]) // 2] + "z" + e[1][len(e[1]) // 2 + 1:]]]
    if k == "byte":
        return [["int", e[1]], ["str", chr(e[1])], ["byte", e[1] ^ 1 if e[1] ^ 1 not in (39, 92) else 97]]
    if k in ("true", "false", "nil"):
        return [["true"], ["false"], ["nil"], ["int", 0], ["int", 1], ["str", k]]
    if k == "arr":
        return [["arr", e[1] + [["nil"]]], ["arr", e[1][:-1]], ["arr", e[1][::-1]], ["arr", [e]], ["dict", []]]
    if k == "dict":
        return [["dict", e[1][::-1]], ["dict", e[1][1:] + e[1][:1]], ["dict", sorted(e[1])], ["dict", e[1][:-1]], ["arr", [v for _, v in e[1]]],
                ["dict", e[1] + [["zz", ["nil"]]]] if all(k != "zz" for k, _ in e[1]) else ["dict", []]]
    return [["nil"]]


def mutate(draw, e):
    """A copy of e with one place changed (or none)."""
    e = json.loads(json.dumps(e))
    k = e[0]
    if k == "arr" and e[1] and draw(st.integers(0, 3)):
        i = draw(st.integers(0, len(e[1]) - 1))
        e[1][i] = mutate(draw, e[1][i])
        return e
    if k == "dict" and e[1] and draw(st.integers(0, 3)):
        i = draw(st.integers(0, len(e[1]) - 1))
        e[1][i][1] = mutate(draw, e[1][i][1])
        return e
    if k == "un" and draw(st.integers(0, 2)):
        e[2] = mutate(draw, e[2])
        return e if e[2][0] in ("int", "float") else e[2]
    if k == "call" and len(e[2]) == 2 and draw(st.integers(0, 3)):      # std.error
        e[2][1] = mutate(draw, e[2][1])
        return e
    ms = leaf_mutations(e)
    return ms[draw(st.integers(0, len(ms) - 1))]


def steps(e, n):
    """The same value built step by step: a call of a function."""
    k = e[0]
    if k == "arr":
        body = [["let", "r%d" % n, ["arr", []]]]
        body += [["expr", std("push", ["id", "r%d" % n], steps(x, n + 1))] for x in e[1]]
        # A detour, undone.
        body += [["expr", std("push", ["id", "r%d" % n], ["int", 1])], ["expr", std("pop", ["id", "r%d" % n])]]
    elif k == "dict":
        body = [["let", "r%d" % n, ["dict", []]]]
        body += [["set", ["idx", ["id", "r%d" % n], ["str", k]], ["int", 5]] for k, _ in e[1]]
        body += [["set", ["dot", ["id", "r%d" % n], k], steps(x, n + 1)] for k, x in e[1][::-1]]
    elif k == "str" and len(e[1]) > 1:
        m = len(e[1]) // 2
        return ["bin", "++", ["str", e[1][:m]], ["str", e[1][m:]]]
    elif k == "int" and 0 < e[1] < V.I64MAX:
        return ["bin", "-", ["int", e[1] + 1], ["int", 1]]
    elif k == "byte":
        return ["idx", ["str", chr(e[1])], ["int", 0]]
    elif k == "call" and len(e[2]) == 2:
        return ["call", e[1], [steps(e[2][0], n), steps(e[2][1], n)]]
    else:
        return e
    return ["call", ["func", [], body + [["return", ["id", "r%d" % n]]]], []]


FUNS = [
    ["call", ["id", "mk"], [["int", 1]]], ["call", ["id", "mk"], [["int", 2]]], ["call", ["id", "mk"], [["arr", [["int", 1]]]]],
    ["call", ["id", "mk"], [["float", "1.0"]]], ["id", "mk"], ["func", [], [["return", ["int", 1]]]], ["dot", ["id", "std"], "len"],
    ["dot", ["id", "std"], "push"], ["dot", ["id", "std"], "len"], ["call", ["id", "mk2"], [["int", 1], ["int", 2]]],
    ["call", ["id", "mk2"], [["int", 1], ["int", 3]]], ["call", ["id", "mk2"], [["int", 1], ["int", 2]]],
]
PRE = [
    ["fn", "mk", ["x"], [["return", ["func", [], [["return", ["id", "x"]]]]]]],
    ["fn", "mk2", ["x", "y"], [["let", "z", ["arr", [["id", "x"], ["id", "y"]]]],
                               ["return", ["func", ["k"], [["return", ["arr", [["id", "z"], ["id", "k"]]]]]]]]],
]
NAN = ["bin", "/", ["float", "0.0"], ["float", "0.0"]]


@st.composite
def big(draw):
    """A large collection or string, and possibly a permutation of it."""
    k = draw(st.integers(0, 3))
    n = draw(st.sampled_from([4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 33]))
    item = st.one_of(V.small_int_e, V.small_int_e, V.scalars(nan=False, raw=True))
    if k == 0:
        return ["str", draw(st.text(alphabet="ab\xff", min_size=n, max_size=n)) * draw(st.sampled_from([1, 1, 8, 40]))]
    xs = draw(st.lists(item, min_size=n, max_size=n))
    if k == 1:
        return ["arr", xs]
    names = draw(st.permutations(["k%d" % i for i in range(n)]))
    return ["dict", [[a, x] for a, x in zip(names, xs)]]


@st.composite
def pools(draw):
    labels = []
    vs = draw(st.lists(V.values(nan=draw(st.integers(0, 3)) == 0, raw=True, max_leaves=draw(st.sampled_from([2, 4, 10]))), min_size=1, max_size=6))
    if draw(st.integers(0, 5)) == 0:
        d = vs[0]
        for _ in range(draw(st.integers(3, 12))):
            d = draw(st.sampled_from([["arr", [d]], ["dict", [["a", d]]], ["arr", [["int", 1], d]], std("error", ["str", "e"], d)]))
        vs.append(d)
        labels.append("deep")
    if draw(st.integers(0, 3)) == 0:
        vs += draw(st.lists(big(), min_size=1, max_size=2))
        labels.append("big")
    for _ in range(draw(st.integers(1, 6))):
        vs.append(mutate(draw, vs[draw(st.integers(0, len(vs) - 1))]))
        labels.append("near duplicates")
    if draw(st.integers(0, 3)) == 0:
        labels.append("functions")
        fs = draw(st.lists(st.sampled_from(FUNS), min_size=1, max_size=5))
        vs += [f if draw(st.booleans()) else draw(st.sampled_from([["arr", [f]], ["dict", [["f", f]]], std("error", ["str", "e"], f)])) for f in fs]
    if draw(st.integers(0, 5)) == 0:
        vs.append(NAN)
        vs.append(draw(st.sampled_from([["arr", [NAN]], ["dict", [["a", NAN]]], std("error", ["str", "x"], NAN), ["un", "-", NAN]])))
    if draw(st.booleans()):
        labels.append("built in steps")
        vs = [steps(v, 0) if draw(st.booleans()) else v for v in vs]
    return {"kind": "pool", "vals": vs, "labels": sorted(set(labels)), "alias": draw(st.booleans())}


def sortable(nan):
    return V.values(nan=nan, raw=False, max_leaves=4)


@st.composite
def sorts(draw):
    k = draw(st.integers(0, 7))
    labels = ["sort"]
    size = draw(st.sampled_from([3, 8, 20, 21, 40, 70]))
    small = draw(st.booleans())
    if k == 0:
        s = st.integers(0, 5).map(V.int_expr) if small else V.int_e
    elif k == 1:
        s = V.raw_str_e
    elif k == 2:
        s = V.num_float_e
    elif k == 3:
        s = st.integers(0, 3).map(V.int_expr)
        s = st.one_of(V.array_e(s, 3), V.dict_e(s, 2), V.error_e(s), s)
    elif k == 4:
        s = st.one_of(V.float_e, V.float_e, st.just(NAN))
    elif k == 5:
        s = st.one_of(V.array_e(st.one_of(st.just(NAN), V.small_int_e, V.float_e), 2), st.just(NAN))
        labels.append("nested nan")
    else:
        s = sortable(False)
    if size > 21:
        size = min(size, 70)
        labels.append("large sort")
    xs = draw(st.lists(s, min_size=draw(st.sampled_from([0, size // 2, size])), max_size=size))
    return {"kind": "sort", "vals": xs, "labels": labels}


def strategy(tier):
    return st.integers(0, 3).flatmap(lambda k: sorts() if k == 0 else pools())


def bit(e):
    return ["if", e, [["expr", ["str", "1"]]], [["expr", ["str", "0"]]]]


def rng(n):
    return std("range", ["int", 0], n, ["int", 1])


P_I, P_J = ["idx", ["id", "p"], ["id", "i"]], ["idx", ["id", "p"], ["id", "j"]]
N = std("len", ["id", "p"])


def prog(case):
    if case["kind"] == "sort":
        return [["let", "p", ["arr", case["vals"]]], ["let", "q", ["id", "p"]],
                println(std("sort", ["id", "p"])), println(std("len", ["id", "q"])),
                ["for", "x", std("iter", ["id", "q"]), [println(["id", "x"])]]]

    def row(e):
        return [["let", "r", ["str", ""]], ["for", "j", rng(N), [["set", ["id", "r"], ["bin", "++", ["id", "r"], bit(e)]]]], println(["id", "r"])]
    out = list(PRE) + [["let", "p", ["arr", case["vals"]]]]
    if case.get("alias"):
        out.append(["expr", std("push", ["id", "p"], ["idx", ["id", "p"], ["int", 0]])])
    out += [
        ["for", "i", rng(N), [
            ["expr", ["if", ["true"], row(["bin", "==", P_I, P_J]), None]],
            ["expr", ["if", ["true"], row(["bin", "!=", P_I, P_J]), None]],
            ["expr", ["if", ["true"], row(std("contains", ["arr", [["nil"], P_I]] if False else ["arr", [P_I]], P_J)), None]],
            ["let", "d", ["dict", []]],
            ["set", ["idx", ["id", "d"], P_I], ["id", "i"]],
            ["expr", ["if", ["true"], row(std("contains", ["id", "d"], P_J)), None]],
        ]],
        # All of them in one dict: equal ones share their entry, and all are found again.
        ["let", "all", ["dict", []]],
        ["for", "i", rng(N), [["set", ["idx", ["id", "all"], P_I], ["id", "i"]]]],
        println(["str", "entries"], std("len", ["id", "all"])),
        ["for", "i", rng(N), [println(std("contains", ["id", "all"], P_I),
                                      ["if", std("contains", ["id", "all"], P_I), [["expr", ["idx", ["id", "all"], P_I]]], None])]],
        # As members of equal collections.
        println(["bin", "==", ["id", "p"], ["id", "p"]], std("contains", ["arr", [["int", 0], ["id", "p"]]], ["id", "p"])),
        ["for", "i", rng(N), [["for", "j", rng(N), [
            ["expr", ["if", ["bin", "!=", ["bin", "==", ["arr", [P_I]], ["arr", [P_J]]], ["bin", "==", P_I, P_J]],
                      [println(["str", "arrays disagree"], ["id", "i"], ["id", "j"])], None]],
            ["expr", ["if", ["bin", "!=", ["bin", "==", ["dict", [["k", P_I]]], ["dict", [["k", P_J]]]], ["bin", "==", P_I, P_J]],
                      [println(["str", "dicts disagree"], ["id", "i"], ["id", "j"])], None]],
            ["expr", ["if", ["bin", "!=", ["bin", "==", std("error", ["str", "k"], P_I), std("error", ["str", "k"], P_J)], ["bin", "==", P_I, P_J]],
                      [println(["str", "errors disagree"], ["id", "i"], ["id", "j"])], None]],
        ]]]],
    ]
    return out


def show(case):
    return render(prog(case)).text.decode("utf-8", "backslashreplace")


def sort_verdict(case, rt):
    """Sorting with values that are equal to nothing, or equal and yet displayed differently: a
    permutation in order."""
    from core.engine import fail
    from lang.interp import Interp
    from lang.progs import unshare
    from lang.values import canonical, cmp, show as vshow, print_bytes
    nan = "nested nan" in case["labels"]
    p = unshare(prog(case))
    r = render(p)
    it = Interp(p[:1], r)
    it.run()
    # Evaluate the literal once more to have the values themselves.
    vals = eval_items(it, p)
    o = rt.script(r.text)
    lines = sorted(canonical(print_bytes(v)) for v in vals)
    detail = {"script": r.text.decode("utf-8", "backslashreplace")[:3000], "actual": o.brief()}
    if o.hang or o.rc != 0 or o.err:
        return fail(dict(detail, why="sorting failed"), labels=case["labels"], hang=o.hang)
    body = o.out
    head = b"nil\n%d\n" % len(vals)
    if not body.startswith(head):
        return fail(dict(detail, why="wrong result or length"), labels=case["labels"])
    body = body[len(head):]
    if nan:
        # Only a permutation.
        if sorted(map(bytes, [body])) and sorted(body) != sorted(b"".join(print_bytes(v) + b"\n" for v in vals)):
            return fail(dict(detail, why="not a permutation"), labels=case["labels"])
        return Verdict(True, labels=case["labels"])
    exp = sorted(vals, key=functools.cmp_to_key(cmp))
    i = 0
    for v in exp:
        b = print_bytes(v) + b"\n"
        got = body[i:i + len(b)]
        i += len(b)
        if got == b:
            continue
        if sorted(got) == sorted(b) and b"@[ " in b:
            continue
        # 0.0 and -0.0 are equal: either may come first (the width differs, so give up on bytes).
        if zeros(case):
            return zero_verdict(body, exp, detail, case)
        return fail(dict(detail, why="not in order", expected=(print_bytes(v)).decode("latin-1")), labels=case["labels"])
    if i != len(body):
        return fail(dict(detail, why="more output than items"), labels=case["labels"])
    return Verdict(True, labels=case["labels"], n=len(vals) or 1)


def zeros(case):
    return '"0.0"' in json.dumps(case["vals"])


def zero_verdict(body, exp, detail, case):
    from core.engine import fail
    from lang.values import print_bytes
    norm = b"\n".join(print_bytes(v) for v in exp) + b"\n"
    f = lambda b: sorted(b.replace(b"-0.0", b"0.0"))
    if f(body) != f(norm):
        return fail(dict(detail, why="not a permutation"), labels=case["labels"])
    return Verdict(True, labels=case["labels"] + ["signed zeros"])


def eval_items(it, p):
    from lang.interp import Frame, Cell
    root = Frame({}, None)
    root.cells[("std",)] = Cell(it.std)
    return [it.expr(x, root) for x in p[0][2][1]]


def evaluate(case, rt):
    if case["kind"] == "sort":
        v = sort_verdict(case, rt)
        v.nontrivial = len(case["vals"]) > 1
        return v
    n = len(case["vals"])
    labels = list(case["labels"])
    if json.dumps(NAN) in json.dumps(case["vals"]):
        labels.append("nan")
    v = judge(prog(case), rt, labels, steps=2000000, nontrivial=lambda it: n >= 2)
    v.n = n * n
    return v


Z, MZ = ["float", "0.0"], ["un", "-", ["float", "0.0"]]
PINNED = [
    # Once: 0.0 and -0.0 were equal but different dict keys.
    {"kind": "pool", "vals": [Z, MZ, ["arr", [Z]], ["arr", [MZ]]], "labels": [], "alias": False},
]
