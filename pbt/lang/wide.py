"""Programs of unusual size: many variables, captures, parameters, iterations, items, operands, branches.

A case is {"wide": kind, "n": size, "s": seed}: the program is derived from it, so cases stay small and
shrink to the smallest size that fails."""
import random

from hypothesis import strategies as st

from .progs import judge, println, std
from .syntax import render


def I(n):
    return ["int", n] if n >= 0 else ["un", "-", ["int", -n]]


def N(n):
    return ["id", n]


def B(o, a, b):
    return ["bin", o, a, b]


def fn(params, body):
    return ["func", params, body]


def some(r, n, k=12):
    """Some of 0..n-1: both ends, around the powers of two, and random ones."""
    s = {0, n - 1, n // 2} | {r.randrange(n) for _ in range(k)}
    p = 1
    while p < n:
        s |= {p - 1, p, p + 1}
        p *= 2
    s = sorted(x for x in s if 0 <= x < n)
    r.shuffle(s)
    return s[:40]


def p_locals(n, r):
    """n variables of a function, some assigned again, some captured."""
    b = [["let", "v%d" % i, I(i * 3 + 1)] for i in range(n)]
    for i in some(r, n):
        b.append(["set", N("v%d" % i), B("+", N("v%d" % r.choice(some(r, n))), I(r.randrange(100)))])
    for i in some(r, n)[:6]:
        b.append(["expr", std("push", N("fs"), fn([], [["set", N("v%d" % i), B("+", N("v%d" % i), I(1000))],
                                                      ["return", N("v%d" % i)]]))])
    for i in range(0, n, 8):
        b.append(println(*[N("v%d" % j) for j in range(i, min(n, i + 8))]))
    tail = [["for", "f", std("iter", N("fs")), [println(["call", N("f"), []])]]]
    k = r.randrange(3)
    if k == 0:
        return [["let", "fs", ["arr", []]]] + b + tail
    if k == 1:
        return [["let", "fs", ["arr", []]], ["fn", "f", [], b], ["expr", ["call", N("f"), []]]] + tail + tail
    return [["let", "fs", ["arr", []]], ["expr", ["if", ["true"], b, None]]] + tail


def p_blocks(n, r):
    """n blocks one after the other, each with its own variables."""
    out = [["let", "t", I(0)], ["let", "fs", ["arr", []]]]
    keep = set(some(r, n)[:8])
    for i in range(n):
        b = [["let", "x", I(i)], ["let", "y", B("*", N("x"), I(2))], ["set", N("t"), B("+", N("t"), N("y"))]]
        if i in keep:
            b.append(["expr", std("push", N("fs"), fn([], [["return", B("-", N("y"), N("x"))]]))])
        out.append(["expr", ["if", ["true"], b, None]] if i % 2 else ["for", "q", std("range", I(0), I(1), I(1)), b])
    return out + [println(N("t")), ["for", "f", std("iter", N("fs")), [println(["call", N("f"), []])]]]


def p_captures(n, r):
    """A closure over n variables of a function which returned."""
    b = [["let", "v%d" % i, I(i)] for i in range(n)]
    order = list(range(n))
    r.shuffle(order)
    inner = [["set", N("v%d" % i), B("+", N("v%d" % i), I(i % 7 + 1))] for i in order]
    inner += [println(*[N("v%d" % j) for j in range(i, min(n, i + 8))]) for i in range(0, n, 8)]
    f = fn([], inner)
    if r.randrange(2):
        f = fn([], [["return", ["call", f, []]]])
    return [["fn", "mk", [], b + [["return", f]]], ["let", "a", ["call", N("mk"), []]],
            ["let", "b", ["call", N("mk"), []]], ["expr", ["call", N("a"), []]], ["expr", ["call", N("b"), []]],
            ["expr", ["call", N("a"), []]]]


def p_params(n, r):
    """A function of n parameters, called with that many arguments, and with one more or less."""
    ps = ["p%d" % i for i in range(n)]
    body = [println(*[N(p) for p in ps[i:i + 8]]) for i in range(0, n, 8)]
    body += [["set", N(ps[i]), B("+", N(ps[i]), I(100))] for i in some(r, n)]
    body += [["return", ["arr", [N(p) for p in ps]]]]
    args = [I(r.randrange(1000)) for _ in range(n)]
    if r.randrange(2):
        pre, f = [["let", "o", ["dict", [["m", fn(ps, body)]]]]], ["dot", N("o"), "m"]
    else:
        pre, f = [["fn", "f", ps, body]], N("f")
    out = pre + [println(["call", f, args])]
    for wrong in (args + [I(1)], args[:-1]):
        out.append(println(std("catch", fn([], [["return", ["call", f, wrong]]]))))
    return out


def p_depth(n, r):
    """Functions within functions: the innermost one uses a variable of each."""
    out = []
    inner = [["set", N("v%d" % i), B("+", N("v%d" % i), I(i + 1))] for i in range(n)]
    inner += [["return", ["arr", [N("v%d" % i) for i in range(n)]]]]
    f = fn([], inner)
    for i in reversed(range(n)):
        f = fn(["v%d" % i], [["return", f]])
    e = f
    out.append(["let", "f", f])
    e = N("f")
    for i in range(n):
        e = ["call", e, [I(i * 10)]]
    return out + [["let", "g", e], println(["call", N("g"), []]), println(["call", N("g"), []])]


def p_functions(n, r):
    out = [["fn", "f%d" % i, ["x"], [["return", B("+", N("x"), I(i))]]] for i in range(n)]
    return out + [println(["call", N("f%d" % i), [I(1)]]) for i in some(r, n)] + [
        ["let", "all", ["arr", [N("f%d" % i) for i in range(n)]]], ["let", "t", I(0)],
        ["for", "f", std("iter", N("all")), [["set", N("t"), B("+", N("t"), ["call", N("f"), [I(2)]])]]],
        println(N("t"))]


def p_while(n, r):
    """n iterations of a loop, which ends by its condition, by break or by return."""
    k = r.randrange(4)
    step = [["set", N("i"), B("+", N("i"), I(1))]]
    if k == 0:
        return [["let", "i", I(0)], ["while", B("<", N("i"), I(n)), step], println(N("i"))]
    if k == 1:
        return [["let", "i", I(0)], ["while", ["true"], step + [
            ["expr", ["if", B("==", N("i"), I(n)), [["break"]], None]]]], println(N("i"))]
    if k == 2:
        return [["fn", "f", [], [["let", "i", I(0)], ["while", ["true"], step + [
            ["expr", ["if", B(">=", N("i"), I(n)), [["return", N("i")]], None]]]]]], println(["call", N("f"), []])]
    return [["let", "i", I(0)], ["let", "j", I(0)], ["while", B("<", N("i"), I(n)), step + [
        ["while", ["true"], [["set", N("j"), B("+", N("j"), I(1))], ["break"]]]]], println(N("i"), N("j"))]


def p_for(n, r):
    k = r.randrange(4)
    acc = [["set", N("t"), B("+", N("t"), I(1))], ["set", N("l"), N("x")]]
    pre, post = [["let", "t", I(0)], ["let", "l", ["nil"]]], [println(N("t"), N("l"))]
    if k == 0:
        return pre + [["for", "x", std("range", I(0), I(n), I(1)), acc]] + post
    if k == 1:
        return pre + [["for", "x", std("range", I(n), I(0), I(-1)), acc]] + post
    if k == 2:
        return pre + [["let", "a", ["arr", []]],
                      ["for", "y", std("range", I(0), I(n), I(1)), [["expr", std("push", N("a"), N("y"))]]],
                      ["for", "x", std("iter", N("a")), acc], println(std("len", N("a")))] + post
    return pre + [["fn", "f", [], [["for", "x", std("range", I(0), I(n * 2), I(1)), acc + [
        ["expr", ["if", B("==", N("t"), I(n)), [["return", N("x")]], None]]]]]], println(["call", N("f"), []])] + post


def p_string_iter(n, r):
    s = "".join(r.choice("abcxyz 01") for _ in range(n))
    return [["let", "s", ["str", s]], ["let", "t", I(0)], ["let", "l", ["nil"]],
            ["for", "c", std("iter", N("s")), [["expr", ["if", B("==", N("c"), ["byte", 97]),
                                                         [["set", N("t"), B("+", N("t"), I(1))]], None]],
                                               ["set", N("l"), N("c")]]],
            println(N("t"), N("l"), std("len", N("s")))]


def p_elseif(n, r):
    """A chain of n conditions."""
    def chain(i):
        if i == n:
            return [["expr", ["str", "else"]]]
        return [["expr", ["if", B("==", N("x"), I(i)), [["expr", I(i * 2)]], chain(i + 1)]]]
    return [["fn", "f", ["x"], [["return", chain(0)[0][1]]]]] + [
        println(["call", N("f"), [I(i)]]) for i in some(r, n) + [n, n + 1]]


def p_nested_blocks(n, r):
    """Blocks within blocks."""
    b = [["set", N("t"), B("+", N("t"), N("v%d" % i))] for i in range(n)] + [println(N("t"))]
    for i in reversed(range(n)):
        k = r.randrange(3)
        b = [["let", "v%d" % i, I(i)], ["expr", ["if", ["true"], b, None]] if k == 0
             else ["while", ["true"], b + [["break"]]] if k == 1
             else ["for", "u%d" % i, std("range", I(0), I(1), I(1)), b]]
    return [["let", "t", I(0)]] + b + [println(N("t"))]


def p_array(n, r):
    """An array of n items: both ways of making it, access at and beyond its ends, assignment, order."""
    vals = [r.randrange(n * 2) for _ in range(n)]
    out = [["let", "a", ["arr", [I(x) for x in vals]]]]
    if r.randrange(2) and n <= 1000:
        out = [["let", "a", ["arr", []]]] + [["expr", std("push", N("a"), I(x))] for x in vals]
    out.append(println(std("len", N("a"))))
    for i in some(r, n):
        out.append(println(["idx", N("a"), I(i)]))
    for i in some(r, n)[:10]:
        out.append(["set", ["idx", N("a"), I(i)], I(-i)])
        out.append(println(["idx", N("a"), I(i)], std("len", N("a"))))
    out.append(println(std("catch", fn([], [["return", ["idx", N("a"), I(n)]]]))))
    out.append(println(std("catch", fn([], [["set", ["idx", N("a"), I(n)], I(0)], ["return", I(0)]]))))
    out.append(["let", "h", I(7)])
    # (Collections of garbage make long loops over long arrays slow.)
    fold = ["expr", I(0)] if n > 3000 else ["for", "x", std("iter", N("a")), [["set", N("h"), B("%", B("+", B("*", N("h"), I(31)), N("x")), I(1000000007))]]]
    out += [fold, println(N("h"))]
    k = r.randrange(3)
    if k == 0:
        out += [["expr", std("sort", N("a"))], fold, println(N("h"))]
    elif k == 1:
        for _ in range(4):
            out.append(println(std("pop", N("a")), std("len", N("a"))))
        out += [fold, println(N("h"))]
    else:
        out += [println(std("contains", N("a"), I(x))) for x in (vals[:2] + vals[-2:] + [n * 2 + 1])]
        out.append(println(B("==", N("a"), ["arr", [I(x) for x in vals]])))
    return out


def p_sort(n, r):
    """Sorting n items of one type."""
    k = r.randrange(4)
    if k == 0:
        es = [I(r.randrange(-n, n)) for _ in range(n)]
    elif k == 1:
        es = [["str", "".join(r.choice("ab") for _ in range(r.randrange(6)))] for _ in range(n)]
    elif k == 2:
        es = [["float", "%d.%d" % (r.randrange(n), r.randrange(10))] for _ in range(n)]
    else:
        es = [["arr", [I(r.randrange(4)), I(i)]] for i in range(n)]
    return [["let", "a", ["arr", es]], ["expr", std("sort", N("a"))], println(N("a"))]


def p_dict(n, r):
    """A dict of n keys."""
    out = [["let", "d", ["dict", [["k%d" % i, I(i)] for i in range(n)]]] if n <= 1500 and r.randrange(2) else
           ["let", "d", ["dict", []]]]
    mult = r.choice([1, 3, -7, 1 << 40])
    if out[0][2][1] == []:
        key = lambda i: I(i * mult)
        out.append(["for", "i", std("range", I(0), I(n), I(1)), [["set", ["idx", N("d"), B("*", N("i"), I(mult))], N("i")]]])
    else:
        key = lambda i: ["str", "k%d" % i]
    out.append(println(std("len", N("d"))))
    for i in some(r, n):
        out.append(println(["idx", N("d"), key(i)], std("contains", N("d"), key(i))))
    for i in some(r, n)[:8]:
        out.append(["set", ["idx", N("d"), key(i)], I(-i)])
        out.append(println(["idx", N("d"), key(i)], std("len", N("d"))))
    out.append(println(std("catch", fn([], [["return", ["idx", N("d"), key(n)]]]))))
    out.append(println(std("contains", N("d"), key(n))))
    return out


def p_strings(n, r):
    """Strings of n bytes: equality, order, joining, indexing."""
    base = r.choice(["a", "ab", "abc", "x y", "\xc3\xa9"])
    s = (base * (n // len(base) + 1))[:n]
    i = r.choice(some(r, n))
    t = s[:i] + r.choice("abz") + s[i + 1:]
    out = [["let", "s", ["str", s]], ["let", "t", ["str", t]], ["let", "c", B("++", N("s"), N("t"))],
           println(std("len", N("s")), std("len", N("c")))]
    for o in ("==", "!=", "<", "<=", ">", ">="):
        out.append(println(B(o, N("s"), N("t")), B(o, N("t"), N("s"))))
    out.append(println(B("==", N("s"), ["str", s]), B("==", N("c"), ["str", s + t]), B("<", N("s"), N("c"))))
    for j in some(r, n)[:8]:
        out.append(println(["idx", N("s"), I(j)], ["idx", N("c"), I(n + j)]))
    out.append(println(std("catch", fn([], [["return", ["idx", N("s"), I(n)]]]))))
    out.append(println(B("++", B("++", N("t"), N("c")), ["str", "!"])))
    return out


def p_operators(n, r):
    """n operators of one or several levels in a row."""
    k = r.randrange(5)
    if k == 0:
        e = I(1)
        for i in range(n):
            e = B(r.choice("+-"), e, I(r.randrange(9)))
    elif k == 1:
        e = I(1)
        for i in range(n):
            e = B("+" if r.randrange(2) else "-", e, B(r.choice("*/%"), I(r.randrange(99)), I(r.randrange(1, 9))))
    elif k == 2:
        e = ["str", "a"]
        for i in range(n):
            e = B("++", e, ["str", r.choice("bcd")])
    elif k == 3:
        e = ["true"]
        for i in range(n):
            e = B(r.choice(["and", "or"]), e, B("<", I(r.randrange(9)), I(r.randrange(9))))
    else:
        e = I(1 << 40)
        for i in range(n):
            e = B(r.choice("*/%"), e, I(r.choice([1, 1, 1, 2, 3]))) if i % 3 else B("*", B("/", e, I(2)), I(2))
    return [println(e), ["let", "f", fn([], [["return", e]])], println(["call", N("f"), []])]


def p_statements(n, r):
    out = [["let", "x", I(0)], ["let", "y", I(1)]]
    for i in range(n):
        out.append([["set", N("x"), B("+", N("x"), I(i % 10))], ["set", N("y"), B("-", N("x"), N("y"))],
                    println(N("x")), ["expr", I(i)]][r.randrange(4)])
    return out + [println(N("x"), N("y"))]


PANICS = [B("+", I(1), ["nil"]), B("/", I(1), I(0)), ["idx", ["arr", [I(1)]], I(5)], std("int", ["nil"]),
          ["call", ["nil"], []], ["dot", ["dict", []], "nope"], ["un", "-", ["str", "x"]], std("panic", ["str", "p"])]


def p_late_panic(n, r):
    """A panic far down a program, inside of a function or not."""
    out = [["let", "x", I(0)]] + [["set", N("x"), I(i)] for i in range(n)]
    p = r.choice(PANICS)
    if r.randrange(2):
        return out + [["fn", "f", [], [["return", p]]], println(std("catch", N("f"))), ["expr", ["call", N("f"), []]]]
    return out + [println(N("x")), ["let", "q", p], println(N("x"))]


def p_far_panic(n, r):
    """A panic far to the right of a long line."""
    p = r.choice(PANICS)
    pad = ["str", "".join(r.choice("ab c\xc3\xa9") for _ in range(n))]
    out = [println(std("catch", fn([], [["return", ["arr", [std("len", pad), p]]]])))]
    return out + [["let", "q", ["arr", [["int", 1], pad, p]]]]


def p_catches(n, r):
    """n panics caught in one run: every one of them leaves things as they were."""
    return [["let", "t", I(0)], ["let", "k", I(0)],
            ["fn", "bad", ["i"], [["let", "l", B("*", N("i"), I(2))],
                                  ["expr", ["if", B("==", B("%", N("i"), I(r.choice([2, 3]))), I(0)),
                                            [["return", B("+", N("l"), r.choice([["nil"], ["str", "a"]]))]], None]],
                                  ["return", N("l")]]],
            ["for", "i", std("range", I(0), I(n), I(1)), [
                ["let", "a", B("+", N("i"), I(1))],
                ["let", "c", std("catch", fn([], [["return", B("+", N("a"), ["call", N("bad"), [N("i")]])]]))],
                ["expr", ["if", B("==", std("type", N("c")), ["str", "error"]),
                          [["set", N("k"), B("+", N("k"), I(1))]],
                          [["set", N("t"), B("+", N("t"), N("c"))]]]],
                ["set", N("t"), B("+", N("t"), N("a"))]]],
            println(N("t"), N("k"))]


def p_tries(n, r):
    """n errors propagated with ? and as many values let through."""
    return [["let", "t", I(0)], ["let", "k", I(0)],
            ["fn", "g", ["i"], [["return", ["if", B("==", B("%", N("i"), I(3)), I(0)),
                                           [["expr", std("error", ["str", "e"], N("i"))]], [["expr", N("i")]]]]]],
            ["fn", "f", ["i"], [["let", "v", ["try", ["call", N("g"), [N("i")]]]],
                                ["return", B("+", N("v"), ["try", N("v")])]]],
            ["for", "i", std("range", I(0), I(n), I(1)), [
                ["let", "c", ["call", N("f"), [N("i")]]],
                ["expr", ["if", B("==", std("type", N("c")), ["str", "error"]),
                          [["set", N("k"), B("+", N("k"), ["dot", N("c"), "context"])]],
                          [["set", N("t"), B("+", N("t"), N("c"))]]]]]],
            println(N("t"), N("k"))]


def p_has_error(n, r):
    """Errors within collections of n items, in arrays and dicts, as items, keys, or deeper."""
    out = [["let", "e", std("error", ["str", "e"], I(1))], ["let", "a", ["arr", []]], ["let", "d", ["dict", []]],
           ["for", "i", std("range", I(0), I(n), I(1)), [["expr", std("push", N("a"), N("i"))], ["set", ["idx", N("d"), N("i")], N("i")]]],
           println(std("has_error", N("a")), std("has_error", N("d")), std("has_error", ["arr", [N("a"), N("d")]]))]
    for i in some(r, n)[:14] + [n - 1]:
        for c in ("a", "d"):
            out += [["set", ["idx", N(c), I(i)], r.choice([N("e"), ["arr", [I(0), N("e")]], ["dict", [["k", N("e")]]]])],
                    println(std("has_error", N(c)), std("has_error", ["arr", [I(0), N(c)]])),
                    ["set", ["idx", N(c), I(i)], I(i)], println(std("has_error", N(c)))]
    return out


def p_faults(n, r):
    """Static faults among n keys, names, parameters or statements; or n faults; or none at all."""
    k, bad = r.randrange(6), r.randrange(4)
    names = ["n%d" % i for i in range(n)]
    if bad:
        i, j = sorted(r.sample([0, n - 1] + some(r, n), 2))
        names[j] = names[i]
    if k == 0:
        return [["let", "d", ["dict", [[x, I(1)] for x in names]]], println(std("len", N("d")))]
    if k == 1:
        return [["let", x, I(1)] for x in names] + [println(N(names[-1]))]
    if k == 2:
        f = fn(names[:300], [["return", N(names[0])]])
        return [["let", "f", f]] if r.randrange(2) else [["fn", "f", f[1], f[2]]]
    if k == 3:
        return [["fn", x, [], [["return", I(1)]]] for x in names] + [println(["call", N(names[-1]), []])]
    if k == 4:
        # Uses of names, one of them not declared (or out of scope).
        b = [["let", x, I(1)] for x in dict.fromkeys(names)] + [["set", N(x), I(2)] for x in names]
        late = r.choice([N("nope"), N("inner"), ["self"], ["try", I(1)]]) if bad else N(names[0])
        return b + [["expr", ["if", ["true"], [["let", "inner", I(1)]], None]], println(late)]
    out = [["let", "q", I(0)]]
    for i in range(n if bad else 0):
        out.append([println(N("u%d" % i)), ["set", I(i), I(1)], ["break"], println(["self"]), ["let", "q", I(1)],
                    ["set", N("q"), I(i)], println(N("q"))][r.randrange(7)])
    return out


def p_long_error(n, r):
    """Errors with long descriptions and contexts, propagated, displayed and read."""
    d = "".join(r.choice("ab c") for _ in range(n))
    return [["let", "e", std("error", ["str", d], ["arr", [["str", d + "!"]]])],
            println(std("len", ["dot", N("e"), "description"]), B("==", ["dot", N("e"), "description"], ["str", d])),
            ["fn", "f", [], [["return", ["try", N("e")]]]], ["let", "g", ["call", N("f"), []]],
            println(B("==", N("e"), N("g")), std("len", ["dot", N("g"), "description"])),
            println(N("g"), N("e")), println(std("catch", fn([], [["return", std("panic", ["str", d])]])))]


def p_recursion(n, r):
    k = r.randrange(3)
    if k == 0:
        return [["fn", "f", ["n", "l"], [["let", "v", B("*", N("n"), I(2))], ["expr", std("push", N("l"), fn([], [
                    ["set", N("v"), B("+", N("v"), I(1))], ["return", N("v")]]))],
                    ["let", "q", ["if", B("==", N("n"), I(0)), [["expr", I(0)]],
                                  [["expr", ["call", N("f"), [B("-", N("n"), I(1)), N("l")]]]]]],
                    ["return", B("+", N("q"), N("v"))]]],
                ["let", "l", ["arr", []]], println(["call", N("f"), [I(n), N("l")]]), ["let", "t", I(0)],
                ["for", "g", std("iter", N("l")), [["set", N("t"), B("+", B("*", N("t"), I(3)), ["call", N("g"), []])],
                                                   ["set", N("t"), B("%", N("t"), I(1000003))]]], println(N("t"))]
    if k == 1:
        return [["fn", "f", ["n"], [["return", ["if", B("<", N("n"), I(1)), [["expr", ["str", ""]]], [
                    ["expr", B("++", ["call", N("f"), [B("-", N("n"), I(1))]], ["str", "x"])]]]]]],
                println(["call", N("f"), [I(n)]])]
    return [["let", "odd", ["nil"]],
            ["fn", "even", ["n"], [["return", ["if", B("==", N("n"), I(0)), [["expr", ["true"]]],
                                              [["expr", ["call", N("odd"), [B("-", N("n"), I(1))]]]]]]]],
            ["set", N("odd"), fn(["n"], [["let", "z", B("-", N("n"), I(1))], ["return", ["if", B("==", N("n"), I(0)), [["expr", ["false"]]],
                                              [["expr", B("==", ["true"], ["call", N("even"), [N("z")]])]]]]])],
            println(["call", N("even"), [I(n)]], ["call", N("even"), [I(n - 1)]])]


def p_equal(n, r):
    """Two collections of n items, equal but for one item, and equal again; keys of a dict among them."""
    k = r.randrange(4)
    if k == 3:
        n = min(n, 800)
    item = [lambda i: N("i"), lambda i: ["arr", [N("i")]], lambda i: B("%", N("i"), I(2)), lambda i: N("i")][k]("i")
    out = [["fn", "mk", [], [["let", "a", ["arr", []]],
                            ["for", "i", std("range", I(0), I(n), I(1)), [["expr", std("push", N("a"), item)]]],
                            ["return", N("a")]]]]
    if k == 3:
        out = [["fn", "mk", [], [["let", "d", ["dict", []]],
                                ["for", "i", std("range", I(0), I(n), I(1)), [["set", ["idx", N("d"), N("i")], B("*", N("i"), I(2))]]],
                                ["return", N("d")]]]]
    out += [["let", "a", ["call", N("mk"), []]], ["let", "b", ["call", N("mk"), []]],
            ["let", "l", ["arr", [N("a"), I(1)]]],
            println(B("==", N("a"), N("b")), B("!=", N("a"), N("b")), std("contains", N("l"), N("b")))]
    places = some(r, n)[:12] + [n - 1, 0, n // 2]
    for i in places:
        out += [["set", ["idx", N("b"), I(i)], r.choice([I(-7), ["nil"], ["arr", [I(i), I(0)]]])],
                println(B("==", N("a"), N("b")), B("!=", N("b"), N("a")), std("contains", N("l"), N("b"))),
                ["set", ["idx", N("b"), I(i)], ["idx", N("a"), I(i)]]]
    out.append(println(B("==", N("a"), N("b")), B("==", ["arr", [N("a"), N("b")]], ["arr", [N("b"), N("a")]])))
    if k != 3:
        # (One begins with the other.)
        out += [["expr", std("push", N("b"), I(0))], println(B("==", N("a"), N("b")), B("==", N("b"), N("a")), std("contains", N("l"), N("b"))),
                ["expr", std("pop", N("b"))], println(B("==", N("a"), N("b")))]
        if n <= 400:
            out += [["let", "d", ["dict", []]], ["set", ["idx", N("d"), N("a")], I(1)], ["set", ["idx", N("d"), ["call", N("mk"), []]], I(2)],
                    println(std("len", N("d")), ["idx", N("d"), N("b")]), ["expr", std("pop", N("b"))],
                    println(std("contains", N("d"), N("b")))]
    else:
        out += [["set", ["idx", N("b"), I(n)], I(0)], println(B("==", N("a"), N("b")), B("==", N("b"), N("a")))]
    return out


def p_methods(n, r):
    """n method calls on one object, and an object with n methods."""
    ms = [["m%d" % i, fn(["x"], [["set", ["dot", ["self"], "t"], B("+", ["dot", ["self"], "t"], B("+", N("x"), I(i)))],
                                ["return", ["dot", ["self"], "t"]]])] for i in range(min(n, 300))]
    out = [["let", "o", ["dict", [["t", I(0)]] + ms]]]
    out += [println(["call", ["dot", N("o"), "m%d" % i], [I(1)]]) for i in some(r, len(ms))]
    out += [["for", "i", std("range", I(0), I(n), I(1)), [["expr", ["call", ["dot", N("o"), "m0"], [N("i")]]]]],
            println(["dot", N("o"), "t"])]
    return out


def p_chain(n, r):
    """n calls, accesses and indexings in a row."""
    out = [["let", "o", ["dict", [["v", I(0)]]]],
           ["set", ["dot", N("o"), "inc"], fn([], [["set", ["dot", ["self"], "v"], B("+", ["dot", ["self"], "v"], I(1))],
                                                  ["return", ["self"]]])],
           ["set", ["dot", N("o"), "me"], N("o")]]
    e = N("o")
    for i in range(n):
        k = r.randrange(3)
        e = ["call", ["dot", e, "inc"], []] if k == 0 else ["dot", e, "me"] if k == 1 else ["idx", e, ["str", "me"]]
    return out + [println(["dot", e, "v"]), println(["dot", N("o"), "v"])]


KINDS = {
    "locals": (700, p_locals), "blocks": (500, p_blocks), "captures": (400, p_captures), "params": (300, p_params),
    "depth": (12, p_depth), "functions": (500, p_functions), "while": (70000, p_while), "for": (10100, p_for),
    "string_iter": (10100, p_string_iter), "elseif": (40, p_elseif), "nested_blocks": (16, p_nested_blocks),
    "array": (70000, p_array), "sort": (2500, p_sort), "dict": (5000, p_dict), "strings": (140000, p_strings),
    "operators": (40, p_operators), "statements": (3000, p_statements), "catches": (3000, p_catches),
    "tries": (5000, p_tries), "recursion": (40, p_recursion), "methods": (5000, p_methods), "chain": (40, p_chain),
    "equal": (3000, p_equal), "has_error": (3000, p_has_error), "faults": (600, p_faults), "long_error": (70000, p_long_error), "late_panic": (70000, p_late_panic), "far_panic": (70000, p_far_panic),
}


def sizes(top):
    """Around the powers of two and ten, and any other."""
    pts = sorted({x for k in range(1, 20) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2) if 1 < x <= top}
                 | {x for k in range(1, 6) for x in (10 ** k, 10 ** k + 1, 2 * 10 ** k + 1, 5 * 10 ** k + 1) if x <= top}
                 | {top, top - 1})
    return st.one_of(st.sampled_from(pts), st.sampled_from(pts[len(pts) // 2:]), st.integers(2, top))


def cases(kinds):
    return st.sampled_from(kinds).flatmap(lambda k: sizes(KINDS[k][0]).flatmap(
        lambda n: st.integers(0, 999).map(lambda s: {"wide": k, "n": n, "s": s})))


def pinned(kinds, seeds=(1, 2, 3, 4)):
    """The largest size of every kind."""
    return [{"wide": k, "n": KINDS[k][0], "s": s} for k in kinds for s in seeds]


def prog(case):
    n = case["n"]
    return KINDS[case["wide"]][1](n, random.Random("%s/%d/%d" % (case["wide"], n, case["s"])))


def is_wide(case):
    return isinstance(case, dict) and "wide" in case


def add_to(mod):
    """Gives a check programs of unusual size of the kinds it names: about 1 case in EVERY, and the largest of
    every kind as pinned cases."""
    kinds, every = mod.WIDE, getattr(mod, "WIDE_EVERY", 100)
    strategy, evaluate, show = mod.strategy, mod.evaluate, getattr(mod, "show", None)
    w = cases(kinds)

    def new_strategy(tier):
        normal = strategy(tier)
        return st.integers(0, every - 1).flatmap(lambda k: w if k == every // 2 else normal)

    def new_evaluate(case, rt):
        if not is_wide(case):
            return evaluate(case, rt)
        labels = ["unusual size", "unusual size: " + case["wide"]]
        own = getattr(mod, "WIDE_JUDGE", None)
        return own(prog(case), rt, labels) if own else judge(prog(case), rt, labels, steps=3000000)

    def new_show(case):
        if is_wide(case):
            return render(prog(case)).text.decode("utf-8", "backslashreplace")
        return show(case) if show else None
    mod.strategy, mod.evaluate, mod.show = new_strategy, new_evaluate, new_show
    mod.PINNED = list(getattr(mod, "PINNED", [])) + pinned(kinds)
    mod.RULE += "; a program of unusual size is always one"
