"""Generated ranges, collections, user-defined iterators (following the protocol or not) and changes during the iteration, run and compared with a reference interpreter; entries of dicts are compared as multisets."""
import math

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.progs import expect, judge
from lang.syntax import str_lit
from lang.tmpl import Template
from lang.vals import I64MAX, I64MIN, array_e, any_bytes, float_expr, int_expr, ints, floats, plain_strings, raw_strings, scalars, values, with_functions

WIDE = ["string_iter", "for"]
COUNTS = {"quick": 9000, "thorough": 240000}
RULE = ("a case is a script of up to 4 iterations (ranges, arrays, strings, dicts or user-defined iterators, each driven by a for loop or "
        "by hand); non-trivial: at least 3 values were yielded, or the protocol was violated")
SAMPLE_LABELS = ("int range", "float range", "mixed range", "descending", "range near the limits", "array", "string", "dict", "scripted iterator", "violation",
                 "changed meanwhile", "shared iterator", "nested", "after the end", "break", "return", "long", "adapter", "history")
ASSUMPTIONS = ["ranges with a zero or NaN step, or with NaN bounds, are not generated: the documentation gives them no meaning",
               "a float range advances by repeated addition, as the documentation's protocol implies"]

LIMIT = 40


# -- sources ----------------------------------------------------------------------------------------
@st.composite
def range_src(draw):
    kind = draw(st.sampled_from(["small", "small", "small", "edge", "edge", "wide", "float", "float", "ffloat", "mixed"]))
    if kind == "small":
        return ["range", draw(st.integers(-15, 15)), draw(st.integers(-15, 15)), draw(st.integers(-7, 7).filter(bool))]
    if kind == "edge":
        up = draw(st.booleans())
        step = draw(st.sampled_from([1, 2, 3, 5, 7, 100, 1 << 61, 1 << 62, I64MAX - 1, I64MAX]))
        e = I64MAX if up else I64MIN
        s = 1 if up else -1
        a = draw(st.integers(0, 12))
        b = draw(st.integers(0, 3))
        fr = e - s * a * step
        fr = draw(st.sampled_from([e - s * a, max(I64MIN, min(I64MAX, fr))]))
        step = step if up else draw(st.sampled_from([-step, -step, I64MIN]))
        return ["range", fr, e - s * b, step]
    if kind == "wide":
        step = draw(ints.filter(bool))
        return ["range", draw(ints), draw(ints), step]
    if kind == "float":
        k = draw(st.sampled_from([0.5, 0.1, 0.25, 1.0, 1.5, 0.3, 2.0, 7.7]))
        return ["range", "%r" % (draw(st.integers(-20, 20)) * k), "%r" % (draw(st.integers(-20, 20)) * k), "%r" % (draw(st.sampled_from([k, -k, 2 * k, k / 2, -k / 2])))]
    if kind == "ffloat":
        step = draw(floats.filter(lambda f: f == f and f != 0))
        return ["range"] + ["%r" % x for x in (draw(floats.filter(lambda f: f == f)), draw(floats.filter(lambda f: f == f)), step)]
    v = [draw(st.integers(-10, 10)), draw(st.integers(-10, 10)), draw(st.integers(-4, 4).filter(bool))]
    m = draw(st.integers(1, 6))
    return ["range"] + ["%r" % (float(x) + (0.5 if draw(st.booleans()) and i < 2 else 0)) if m >> i & 1 else x for i, x in enumerate(v)]


val = with_functions(values(max_leaves=4))
array_src = st.lists(val, max_size=8).map(lambda xs: ["array", xs])
string_src = st.one_of(raw_strings, st.text(alphabet="abc", min_size=8, max_size=30)).map(lambda s: ["string", s])
small_dict_src = st.lists(st.tuples(st.sampled_from(["a", "k", "value", "finished", "key"]), val), max_size=1).map(lambda kv: ["sdict", [list(x) for x in kv]])
# What a user-defined iterator returns.
good = val.map(lambda v: ["dict", [["finished", ["false"]], ["value", v]]])
good_extra = val.map(lambda v: ["dict", [["value", v], ["extra", ["int", 1]], ["finished", ["false"]]]])
END = [["dict", [["finished", ["true"]]]], ["dict", [["finished", ["true"]], ["value", ["int", 7]]]], ["dict", [["finished", ["true"]], ["value", ["nil"]]]]]
BAD = [["nil"], ["int", 1], ["true"], ["false"], ["str", "finished"], ["arr", []], ["arr", [["false"], ["int", 1]]], ["dict", []], ["dict", [["value", ["int", 1]]]],
       ["dict", [["finished", ["false"]]]], ["dict", [["finished", ["nil"]], ["value", ["int", 1]]]], ["dict", [["finished", ["int", 0]], ["value", ["int", 1]]]],
       ["dict", [["finished", ["str", "false"]], ["value", ["int", 1]]]], ["dict", [["Finished", ["false"]], ["value", ["int", 1]]]],
       ["dict", [["finished", ["false"]], ["values", ["int", 1]]]], ["call", ["dot", ["id", "std"], "error"], [["str", "finished"], ["nil"]]],
       ["dict", [["finished", ["dict", []]]]], ["dict", [["finished", ["byte", 116]], ["value", ["int", 1]]]], ["dot", ["id", "std"], "len"],
       ["dict", [["finished", ["float", "0.0"]], ["value", ["int", 1]]]]]


@st.composite
def script_src(draw):
    n = draw(st.integers(0, 7))
    items = [draw(good if draw(st.integers(0, 5)) else good_extra) for _ in range(n)]
    e = draw(st.integers(0, 9))
    if e < 6:
        items.append(draw(st.sampled_from(END)))
        if draw(st.booleans()):
            items.append(draw(good))            # what must not be reached
    elif e < 9:
        items.append(draw(st.sampled_from(BAD)))
    # else: the script runs off the end of the list, which panics in the iterator
    return ["script", items, draw(st.sampled_from(["plain", "plain", "bound", "param", "return", "dictfun", "panic"])), n]


adapter = st.builds(lambda s, k, n: ["adapter", s, k, n], st.integers(0, 3).flatmap(lambda k: [range_src(), array_src, string_src, range_src()][k]),
                    st.sampled_from(["map", "take", "skip", "chain", "count"]), st.integers(0, 6))
notfun = val.map(lambda v: ["value", v])
native = st.sampled_from(["std.len", "std.range", "std.print", "std.iter(1)", "std.iter(nil)", "std.range(1, 2)", "std.range(1, 2, \"a\")", "std.iter([], [])",
                          "std.iter(1.5)", "std.range(nil, 2, 1)", "std.range('a', 'z', 1)", "std.iter(std.len)", "std.iter()", "std.range()", "std.iter(std.error(\"e\", [ 1 ]))"]).map(lambda s: ["text", s])


def source():
    return st.integers(0, 15).flatmap(lambda k: [range_src(), range_src(), range_src(), range_src(), array_src, array_src, array_src, string_src, string_src, small_dict_src,
                                                 script_src(), script_src(), script_src(), adapter, notfun, native][k])


CHANGES = ["push", "pop", "set", "sort", "clear", "replace", "pushmany"]
drive = st.integers(0, 10).flatmap(lambda k: [
    st.just(["for"]), st.just(["for"]), st.integers(0, 5).map(lambda n: ["break", n]), st.integers(0, 5).map(lambda n: ["return", n]),
    st.integers(0, 9).map(lambda n: ["hand", n]), st.integers(0, 9).map(lambda n: ["hand", n]), st.tuples(st.integers(0, 4), st.integers(0, 4)).map(lambda t: ["shared"] + list(t)),
    st.integers(0, 3).map(lambda n: ["nested", n]), st.just(["closures"]), st.integers(0, 4).map(lambda n: ["panic", n]), st.just(["assign"])][k])


@st.composite
def changing(draw):
    xs = draw(st.lists(val, max_size=7))
    ops = draw(st.lists(st.tuples(st.integers(0, 8), st.sampled_from(CHANGES), st.integers(0, 7)), min_size=1, max_size=4))
    return ["changing", xs, [list(o) for o in ops], draw(st.booleans())]


history = st.tuples(st.lists(val, max_size=5), st.lists(st.tuples(st.sampled_from(["a", "a", "a", "b", "push", "push", "pop", "pop", "set", "for"]), st.integers(0, 5)).map(list), min_size=3, max_size=20)).map(
    lambda t: ["history", *t])


@st.composite
def dict_case(draw):
    keys = draw(st.lists(st.integers(0, 3).flatmap(lambda k: [scalars(nan=False), plain_strings.map(lambda s: ["str", s]), ints.map(int_expr), array_e(scalars(nan=False), 2)][k]),
                         max_size=draw(st.sampled_from([3, 8, 20, 40]))))
    vals = [draw(st.integers(0, 99)) for _ in keys]
    return {"dict": [[k, v] for k, v in zip(keys, vals)], "how": draw(st.sampled_from(["for", "hand", "two", "change", "break", "others", "nested"])), "n": draw(st.integers(0, 6))}


@st.composite
def long_case(draw):
    kind = draw(st.sampled_from(["range", "array", "string", "dict"]))
    return {"long": kind, "n": draw(st.sampled_from([255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000])) + draw(st.integers(-1, 1)),
            "step": draw(st.sampled_from([1, 3, -1, -7, 1000003])), "from": draw(st.sampled_from([0, -100, 1 << 40]))}


def strategy(tier):
    one = st.integers(0, 7).flatmap(lambda k: changing() if k == 0 else history if k == 1 else st.tuples(source(), drive).map(list))
    progs = st.lists(one, min_size=1, max_size=4).map(lambda xs: {"its": xs})
    return st.integers(0, 11).flatmap(lambda k: dict_case() if k < 2 else long_case() if k == 2 else progs)


# -- programs ---------------------------------------------------------------------------------------
def number(x):
    return float_expr(float(x)) if isinstance(x, str) else int_expr(x)


def iterator(t, s, labels):
    """Source text of an expression that makes the iterator."""
    k = s[0]
    if k == "range":
        fl = [isinstance(x, str) for x in s[1:]]
        labels.add("float range" if all(fl) else "mixed range" if any(fl) else "int range")
        if float(s[3]) < 0:
            labels.add("descending")
        if not any(fl) and max(abs(x) for x in s[1:3]) > I64MAX - 100:
            labels.add("range near the limits")
        return "std.range(%s)" % ", ".join(t.q(number(x)) for x in s[1:])
    if k == "array":
        labels.add("array")
        return "std.iter(%s)" % t.q(["arr", s[1]])
    if k == "string":
        labels.add("string")
        return "std.iter(%s)" % str_lit(s[1])
    if k == "sdict":
        labels.add("dict")
        return "std.iter(%s)" % t.q(["dict", s[1]])
    if k == "script":
        labels.add("scripted iterator")
        t.it += 1
        n = t.it
        t.add("let k%d = 0\nlet s%d = %s" % (n, n, t.q(["arr", s[1]])))
        how = s[2]
        body = "k%d = k%d + 1\nstd.println(\"call\", k%d)\n" % (n, n, n)
        if how == "panic":
            body += "if k%d == %d then std.panic(s%d) end\n" % (n, s[3] + 1, n)
        res = "s%d[k%d - 1]" % (n, n)
        if how == "return":
            res = "if k%d == 2 then return %s else std.print(\"\") end\n%s" % (n, res, res)
        if how == "bound":
            return "std.bind(s%d, function () %sself[k%d - 1] end)" % (n, body, n)
        if how == "dictfun":
            t.add("let o%d = @[ f: function () %sstd.println(\"self\", self)\n%s end ]" % (n, body, res))
            return "o%d.f" % n
        return "function (%s) %s%s end" % ("x" if how == "param" else "", body, res)
    if k == "adapter":
        labels.add("adapter")
        inner = iterator(t, s[1], labels)
        t.it += 1
        n = t.it
        t.add("let i%d = %s\nlet c%d = 0" % (n, inner, n))
        if s[2] == "map":
            return "function () let r = i%d()\nif r.finished then r else @[ finished: false, value: [ r.value ] ] end end" % n
        if s[2] == "take":
            return "function () c%d = c%d + 1\nif c%d > %d then @[ finished: true ] else i%d() end end" % (n, n, n, s[3], n)
        if s[2] == "skip":
            return "function () while c%d < %d do c%d = c%d + 1\ni%d() end\ni%d() end" % (n, s[3], n, n, n, n)
        if s[2] == "chain":
            return "function () let r = i%d()\nif r.finished and c%d < 1 then c%d = c%d + 1\ni%d = std.range(0, %d, 1)\ni%d() else r end end" % (n, n, n, n, n, s[3], n)
        return "function () c%d = c%d + 1\nlet r = i%d()\nif r.finished then r else @[ finished: false, value: c%d ] end end" % (n, n, n, n)
    if k == "value":
        labels.add("violation")
        return t.q(s[1])
    labels.add("violation")
    return s[1]


def one(t, it, labels):
    t.it += 1
    n = t.it
    if it[0] == "history":
        # Two iterators of one array, also after they finished, between changes of it.
        labels |= {"changed meanwhile", "after the end", "history"}
        t.add("function show%d(r) std.println(std.len(r), r.finished)\nif not r.finished then std.println(r.value) end end" % n)
        t.add("let v%d = %s\nlet a%d = std.iter(v%d)\nlet b%d = std.iter(v%d)" % (n, t.q(["arr", it[1]]), n, n, n, n))
        for k, (op, i) in enumerate(it[2]):
            t.add({"a": "show%d(a%d())" % (n, n), "b": "show%d(b%d())" % (n, n), "push": "std.push(v%d, [ %d ])" % (n, k), "pop": "if not std.is_empty(v%d) then std.println(std.pop(v%d)) end" % (n, n),
                   "set": "if std.len(v%d) > %d then v%d[%d] = %d end" % (n, i, n, i, k), "for": "for x in a%d do std.println(x) end" % n}[op])
        return
    if it[0] == "changing":
        labels.add("changed meanwhile")
        t.add("let a%d = %s\nlet n%d = 0" % (n, t.q(["arr", it[1]]), n))
        t.add("let b%d = a%d" % (n, n))
        body = "std.println(n%d, x)\n" % n
        for step, op, i in it[2]:
            act = {"push": "std.push(a%d, [ n%d ])" % (n, n), "pop": "if not std.is_empty(a%d) then std.println(std.pop(a%d)) end" % (n, n),
                   "set": "if std.len(a%d) > %d then a%d[%d] = \"set\" end" % (n, i, n, i), "sort": "std.sort(a%d)" % n,
                   "clear": "while not std.is_empty(a%d) do std.pop(a%d) end" % (n, n), "replace": "a%d = [ 1, 2 ]" % n,
                   "pushmany": "for y in std.range(0, %d, 1) do std.push(a%d, y) end" % (i, n)}[op]
            if op == "sort":
                # Sorting needs comparable values; keep to what the model orders.
                act = "std.println(std.len(a%d))" % n
            body += "if n%d == %d then %s end\n" % (n, step, act)
        body += "n%d = n%d + 1\nif n%d > %d then break end" % (n, n, n, LIMIT)
        if it[3]:
            t.add("for x in std.iter(a%d) do %s end" % (n, body))
        else:
            t.add("let i%d = std.iter(a%d)\nlet g%d = true\nwhile g%d do let r = i%d()\nif r.finished then g%d = false else let x = r.value\n%s end end" % (n, n, n, n, n, n, body.replace(
                "then break end", "then g%d = false end" % n)))
        t.add("std.println(n%d, a%d, b%d)" % (n, n, n))
        return
    src, d = it
    # Everything inside a catch: what fails is displayed, and the script goes on.
    t.add("std.println(std.catch(function ()")
    e = iterator(t, src, labels)
    k = d[0]
    t.add("let n = 0\nlet last = nil")
    stop = "n = n + 1\nif n >= %d then break end" % LIMIT
    if k == "for":
        t.add("for x in %s do last = x\nstd.println(x, std.type(x))\n%s end" % (e, stop))
    elif k == "break":
        labels.add("break")
        t.add("let it = %s\nfor x in it do std.println(x)\nif n >= %d then break end\nn = n + 1 end\nstd.println(\"next\", it())" % (e, d[1]))
    elif k == "return":
        labels.add("return")
        t.add("function f(it) for x in it do if n >= %d then return [ \"r\", x ] end\nn = n + 1 end\n\"end\" end\nlet it = %s\nstd.println(f(it))\nstd.println(it())" % (d[1], e))
    elif k == "hand":
        labels.add("after the end")
        t.add("let it = %s\nlet i = 0\nwhile i < %d do let r = it()\nif std.type(r) == \"dict\" then std.println(std.len(r), r.finished)\nif not r.finished then std.println(r.value)\nn = n + 1 end "
              "else std.println(r) end\ni = i + 1 end" % (e, d[1]))
    elif k == "shared":
        labels.add("shared iterator")
        t.add("let it = %s\nfor x in it do std.println(\"1\", x)\nn = n + 1\nif n > %d then break end end\nlet m = 0\nfor x in it do std.println(\"2\", x)\nfor y in it do std.println(\"3\", y)\n"
              "m = m + 1\nif m > %d then break end end\n%s end\nstd.println(it().finished)" % (e, d[1], d[2], stop))
    elif k == "nested":
        labels.add("nested")
        t.add("for x in std.range(0, 2, 1) do for x in %s do last = x\nn = n + 1\nif n > 12 then break end\nlet m = 0\nfor y in std.iter([ x, 1, x ]) do m = m + 1\n"
              "if m > %d then break end\nstd.println(x, y) end end\nstd.println(x) end" % (e, d[1]))
    elif k == "closures":
        t.add("let fs = []\nfor x in %s do let y = x\nstd.push(fs, function () [ x, y ] end)\n%s end\nfor f in std.iter(fs) do std.println(f()) end" % (e, stop))
    elif k == "panic":
        t.add("let it = %s\nstd.println(std.catch(function () for x in it do if n == %d then std.panic(x) end\nn = n + 1\nif n > %d then break end end end))\nlet m = 0\n"
              "for x in it do std.println(\"rest\", x)\nm = m + 1\nif m > 20 then break end end" % (e, d[1], LIMIT))
    else:
        t.add("for x in %s do std.println(x)\nx = [ x ]\nstd.println(x)\nlast = x\n%s end" % (e, stop))
    t.add("return [ n, last ] end))")


def build(case):
    t = Template()
    t.it = 0
    labels = set()
    for it in case["its"]:
        one(t, it, labels)
    t.add("std.println(\"done\")")
    return t, labels


def show(case):
    if "its" not in case:
        return str(case)
    t, _ = build(case)
    return t.text + "\n# holes: " + str(t.exprs)


def dict_program(case):
    """The entries as seen are compared as multisets."""
    t = Template()
    how, n = case["how"], case["n"]
    t.add("let d = @[]")
    for k, v in case["dict"]:
        t.add("d[%s] = %d" % (t.q(k), v))
    t.add("let keys = []\nlet len = std.len(d)\nlet seen = 0")
    # Each entry is checked against the dict itself; the remaining dict is compared at the end.
    visit = "if std.contains(left, e.key) and left[e.key] == [ e.value ] and std.len(e) == 2 then left[e.key] = nil else std.println(\"wrong\", e) end\nseen = seen + 1"
    t.add("function all() let left = @[]\nfor k in std.iter([ %s ]) do left[k] = [ d[k] ] end\nleft end" % ", ".join(t.q(k) for k, _ in case["dict"]))
    t.add("function rest(left) let c = 0\nfor k in std.iter([ %s ]) do if left[k] != nil then c = c + 1\nleft[k] = nil end end\nc end" % ", ".join(t.q(k) for k, _ in case["dict"]))
    t.add("let left = all()")
    if how == "for":
        t.add("for e in std.iter(d) do %s end" % visit)
    elif how == "hand":
        t.add("let it = std.iter(d)\nlet i = 0\nwhile i < len + 3 do let r = it()\nif r.finished then std.println(\"end\", i - len, std.len(r)) else let e = r.value\n%s end\ni = i + 1 end" % visit)
    elif how == "two":
        t.add("let a = std.iter(d)\nlet b = std.iter(d)\nlet c = 0\nfor e in a do %s\nlet r = b()\nif r.finished then std.println(\"early\") else c = c + 1 end end\nstd.println(c - len, b().finished)" % visit)
    elif how == "nested":
        t.add("let c = 0\nfor e in std.iter(d) do %s\nfor f in std.iter(d) do c = c + 1 end end\nstd.println(c == len * len)" % visit)
    elif how == "others":       # all entries change, or new ones come, at some point of the iteration
        t.add("for e in std.iter(d) do %s\nif seen == %d then for k in std.iter([ %s ]) do d[k] = [ seen ] end\n%s end end" % (
            visit, n + 1, ", ".join(t.q(k) for k, _ in case["dict"]), "d[\"new\"] = 1" if n % 2 else "nil"))
    elif how == "change":
        t.add("for e in std.iter(d) do %s\nd[e.key] = [ e.value ]\nd[\"new\" ++ std.to_string(seen)] = 1\nif seen == %d then d = @[] end\nif seen > 100 then break end end" % (visit, n))
    else:
        t.add("let it = std.iter(d)\nfor e in it do %s\nif seen > %d then break end end\nfor e in it do %s end" % (visit, n, visit))
    t.add("std.println(seen - len, rest(left))")
    return t


def evaluate(case, rt):
    if "long" in case:
        return long_run(case, rt)
    if "dict" in case:
        # In the model the order is one of the possible ones: nothing printed depends on it.
        t = dict_program(case)
        v = judge(t.prog(), rt, labels=["dict", "changed meanwhile" if case["how"] in ("change", "others") else "dict " + case["how"]], unordered_ok=True,
                  nontrivial=lambda it: len(case["dict"]) > 2, steps=400000)
        return v
    t, labels = build(case)
    v = judge(t.prog(), rt, labels=sorted(labels), nontrivial=lambda it: it.counts.get("caught", 0) > 0 or it.stdout.count(b"\n") > 3 + len(case["its"]), steps=400000)
    v.n = len(case["its"])
    return v


def long_run(case, rt):
    """Sums over long iterations, computed directly."""
    k, n, step, fr = case["long"], case["n"], case["step"], case["from"]
    if k == "range":
        xs = [fr + i * step for i in range(n)]
        text = "let a = 0\nlet c = 0\nlet l = nil\nfor x in std.range(%s, %s, %s) do a = a + x\nc = c + 1\nl = x end\nstd.println(c, a, l)\n" % (
            fr, fr + n * step, step)
        exp = "%d\t%d\t%d\n" % (n, sum(xs), xs[-1])
    elif k == "array":
        text = ("let t = []\nfor x in std.range(0, %d, 1) do std.push(t, x * 3) end\nlet c = 0\nfor x in std.iter(t) do if x != c * 3 then std.println(\"wrong\", x) end\nc = c + 1 end\nstd.println(c)\n" % n)
        exp = "%d\n" % n
    elif k == "string":
        s = "".join(chr((i * 7 + fr) % 251 + 1) for i in range(n))
        text = "let s = %s\nlet c = 0\nfor x in std.iter(s) do if x != s[c] then std.println(\"wrong\", c) end\nc = c + 1 end\nstd.println(c)\n" % str_lit(s)
        exp = "%d\n" % n
    else:
        text = ("let d = @[]\nfor x in std.range(0, %d, 1) do d[x] = x * 2 end\nlet c = 0\nlet a = 0\nfor e in std.iter(d) do if e.value != e.key * 2 then std.println(\"wrong\", e) end\nc = c + 1\na = a + e.key end\n"
                "std.println(c, a)\n" % n)
        exp = "%d\t%d\n" % (n, n * (n - 1) // 2)
    return expect(text, exp.encode(), rt, labels=["long", k], nontrivial=True)
