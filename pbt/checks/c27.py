"""Generated values checked against type names, and generated calls of every standard function with any number and types of arguments, against a table of what each accepts; effects are looked for afterwards."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.progs import judge
from lang.syntax import str_lit
from lang.tmpl import Template
from lang.vals import FUN_E, array_e, dict_e, error_e, values, with_functions

COUNTS = {"quick": 10000, "thorough": 250000}
RULE = ("a case is a script of up to 24 calls, or up to 8 values checked against type names; non-trivial: some call has a wrong number or wrong types of arguments, or some "
        "type name does not fit; each call or value is one evaluation")
SAMPLE_LABELS = ("accepted", "wrong number", "wrong type", "type names", "unknown type", "mismatch", "match", "alias", "bound", "inner")
ASSUMPTIONS = ["of several arguments of wrong types, any may be the reported one"]

TYPES = ["nil", "bool", "char", "int", "float", "string", "array", "dict", "function", "error"]
# Expressions, their types and their displays (None: not compared).
POOL = [
    ("nil", "nil", "nil"), ("true", "bool", "true"), ("false", "bool", "false"), ("0", "int", "0"), ("1", "int", "1"), ("(-1)", "int", "-1"), ("300", "int", "300"),
    ("9223372036854775807", "int", "9223372036854775807"), ("0.0", "float", "0.0"), ("1.5", "float", "1.5"), ("1e999", "float", None), ("'a'", "char", "a"), ("'0'", "char", "0"),
    ('""', "string", '""'), ('"a"', "string", '"a"'), ('"xyz"', "string", '"xyz"'), ('"12"', "string", '"12"'), ('"int"', "string", '"int"'), ('"0"', "string", '"0"'),
    ("[]", "array", "[ ]"), ("[ 1 ]", "array", "[ 1 ]"), ('[ "a", nil ]', "array", '[ "a", nil ]'), ("@[]", "dict", "@[ ]"), ("@[ a: 1 ]", "dict", '@[ "a": 1 ]'),
    ("function () 1 end", "function", None), ("function (x) x end", "function", None), ("std.len", "function", "std.len"), ("std.iter([])", "function", "std.iter<impl>"),
    ('std.error("e", 1)', "error", 'error: "e" (1)'), ('std.error("", nil)', "error", 'error: "" (nil)'), ("ka", "array", "[ 7, 8 ]"), ("kd", "dict", '@[ "k": 9 ]'),
    ("ks", "string", '"kept"'), ("std.catch(std.len)", "error", None), ("@[ finished: true ]", "dict", '@[ "finished": true ]'), ("std.rand()", "float", None),
    ("std.args()", "array", "[ ]"), ("[ [ 1 ], @[] ]", "array", "[ [ 1 ], @[ ] ]"),
]
STR, ANY, INT, NUM, FUN, ARR = ["string"], TYPES, ["int"], ["int", "float"], ["function"], ["array"]
# function: alternatives of parameter types, result types ("P": may panic for other reasons)
TABLE = {
    "std.args": ([[]], ["array"]), "std.assert": ([[["bool"]]], ["nil", "P"]), "std.base64.encode": ([[STR]], ["string"]), "std.base64.decode": ([[STR]], ["string", "error"]),
    "std.bind": ([[ANY, FUN]], ["function"]), "std.bytes": ([[STR]], ["array"]), "std.catch": ([[FUN]], TYPES), "std.cd": ([[STR]], ["nil", "error"]),
    "std.contains": ([[ARR, ANY], [["dict"], ANY], [STR, ["char"]]], ["bool"]), "std.cwd": ([[]], ["string"]), "std.env": ([[STR]], ["nil", "string"]),
    "std.export": ([[STR, STR]], ["nil", "error"]), "std.error": ([[STR, ANY]], ["error"]), "std.exit": ([[INT]], None), "std.float": ([[NUM + STR]], ["float", "P"]),
    "std.glob": ([[STR]], ["array", "error"]), "std.has_error": ([[ANY]], ["bool"]), "std.hex.encode": ([[STR]], ["string"]), "std.hex.decode": ([[STR]], ["string", "error"]),
    "std.import": ([[STR]], ["P"]), "std.int": ([[NUM + STR]], ["int", "P"]), "std.is_empty": ([[["string", "array", "dict"]]], ["bool"]), "std.iter": ([[["string", "array", "dict"]]], ["function"]),
    "std.json.encode": ([[ANY]], ["string", "P"]), "std.json.decode": ([[STR]], TYPES), "std.len": ([[["string", "array", "dict"]]], ["int"]), "std.panic": ([[ANY]], ["P"]),
    "std.pop": ([[ARR]], TYPES + ["P"]), "std.push": ([[ARR, ANY]], ["nil"]), "std.rand": ([[]], ["float"]), "std.randint": ([[INT, INT]], ["int", "P"]), "std.randseed": ([[INT]], ["nil"]),
    "std.range": ([[NUM, NUM, NUM]], ["function"]), "std.read": ([[STR], []], ["string"]), "std.regex": ([[STR]], ["dict", "error"]), "std.replace": ([[STR, STR, STR]], ["string"]),
    "std.sleep": ([[INT]], None), "std.sort": ([[ARR]], ["nil"]), "std.split": ([[STR, STR]], ["array"]), "std.substr": ([[STR, INT, INT]], ["string", "nil"]),
    "std.to_string": ([[ANY]], ["string"]), "std.trim": ([[STR]], ["string"]), "std.type": ([[ANY]], ["string"]), "std.typecheck": ([[ANY, STR]], TYPES + ["P"]),
    "std.try_typecheck": ([[ANY, STR]], ["nil", "error", "P"]),
    # Functions that others return.
    "std.iter([ 1, 2 ])": ([[]], ["dict"]), "std.iter(\"ab\")": ([[]], ["dict"]), "std.iter(@[ a: 1 ])": ([[]], ["dict"]), "std.range(0, 5, 1)": ([[]], ["dict"]), "std.range(0.5, 5, 1)": ([[]], ["dict"]),
    "std.regex(\"a\").match": ([[STR]], ["bool"]), "std.regex(\"a\").split": ([[STR]], ["array"]), "std.regex(\"a\").replace": ([[STR, STR]], ["string"]),
    "std.bind(1, function (a, b) self end)": ([[ANY, ANY]], ["int"]), "std.bind(std.range, function () \"s\" end)": ([[]], ["string"]), "std.bind(nil, std.trim)": ([[STR]], ["string"]),
    "function (a, b, c) b end": ([[ANY, ANY, ANY]], TYPES), "function () nil end": ([[]], ["nil"]), "function (a) [ a ] end": ([[ANY]], ["array"]), "(&{ hx exit 0 }).join": ([[]], ["nil"]),
}
FUNS = list(TABLE)
MUTATES = ("std.pop", "std.push", "std.sort")
BY_TYPE = {t: [i for i, p in enumerate(POOL) if p[1] == t] for t in TYPES}


@st.composite
def call(draw):
    f = draw(st.integers(0, len(FUNS) - 1))
    alts = TABLE[FUNS[f]][0]
    alt = alts[draw(st.integers(0, len(alts) - 1))]
    anyv = st.integers(0, len(POOL) - 1)
    k = draw(st.sampled_from(["wrong type", "wrong type", "wrong type", "ok", "count", "count", "free"]))
    if k == "free":
        args = draw(st.lists(anyv, max_size=5))
    else:
        args = [draw(st.sampled_from([i for t in ts for i in BY_TYPE[t]])) for ts in alt]
        if k == "count":
            if args and draw(st.booleans()):
                args.pop(draw(st.integers(0, len(args) - 1)))
            else:
                args.insert(draw(st.integers(0, len(args))), draw(anyv))
                if draw(st.booleans()):
                    args.append(draw(anyv))
        elif k == "wrong type" and args:
            i = draw(st.integers(0, len(args) - 1))
            args[i] = draw(anyv)
            if draw(st.integers(0, 3)) == 0:
                args = [draw(anyv) for _ in args]
    return [f, args, draw(st.sampled_from(["direct", "direct", "direct", "alias", "bound", "inner", "field"]))]


NAMES = TYPES + ["byte", "Int", "", "function ", " int", "any", "number", "str", "integer", "string\0", "ints", "in", "NIL", "boolean", "fn", "object", "value", "\xc3\xa9", "\xff", "list"]


@st.composite
def typing(draw):
    leaf = st.sampled_from([FUN_E, FUN_E, ["dot", ["id", "std"], "len"], ["nil"], ["int", 1], ["str", "int"]])
    held = st.one_of(dict_e(leaf, 3), array_e(leaf, 3), error_e(leaf))
    return [draw(st.one_of(with_functions(values(raw=True, max_leaves=5)), with_functions(values(raw=True, max_leaves=5)), held)), draw(st.sampled_from(NAMES + TYPES)), draw(st.booleans())]


def strategy(tier):
    calls = st.lists(call(), min_size=1, max_size=24).map(lambda xs: {"calls": xs})
    types = st.lists(typing(), min_size=1, max_size=8).map(lambda xs: {"types": xs})
    return st.integers(0, 3).flatmap(lambda k: types if k == 0 else calls)


def expected(f, args):
    """("count", n, expected counts) | ("type", positions) | ("ok", result types)"""
    alts, res = TABLE[f]
    if f == "std.read" and len(args) > 1:
        return "count", [1, 0]
    fit = [a for a in alts if len(a) == len(args)]
    if not fit:
        return "count", sorted({len(a) for a in alts})
    wrong = [[i for i, (x, ts) in enumerate(zip(args, a)) if POOL[x][1] not in ts] for a in fit]
    if not all(wrong):
        return "ok", res
    best = [w for w in wrong if 0 not in w] or wrong
    return "type", sorted({i for w in best for i in w})


def build(case):
    """(text, [(expectation, arguments, line)])"""
    ls = ["let ka = [ 7, 8 ]", "let kd = @[ k: 9 ]", "let ks = \"kept\"", "let cwd = std.cwd()",
          "function c(n, f) let ended = false let r = std.catch(function () let v = f() ended = true return v end)",
          "if not ended then std.println(n, \"P\", r.description) else std.println(n, std.type(r)) end end"]
    out = []
    for n, (f, args, how) in enumerate(case["calls"]):
        fun = FUNS[f]
        kind, what = expected(fun, args)
        if kind == "ok" and what is None:
            continue                    # it would end the script, or make it wait
        if kind == "ok" and (fun in MUTATES):
            args = [20 if POOL[a][0] in ("ka", "std.args()") else a for a in args]
        if kind == "ok" and fun == "std.read":
            args = [13 for _ in args]   # the prompt is printed
        if kind == "ok" and fun == "std.cd":
            args = [15]                 # there is no such directory
        t = ", ".join(POOL[a][0] for a in args)
        if how == "alias":
            ls.append("let f%d = %s" % (n, fun))
            e = "f%d(%s)" % (n, t)
        elif how == "bound":
            if "self" in fun:
                e = "(%s)(%s)" % (fun, t)
            else:
                e = "std.bind(@[], %s)(%s)" % (fun, t)
        elif how == "inner":
            names = ", ".join("p%d" % i for i in range(len(args)))
            e = "(function (%s) (%s)(%s) end)(%s)" % (names, fun, names, t)
        elif how == "field":
            ls.append("let d%d = @[ f: %s ]" % (n, fun))
            e = "[ d%d ][0].f(%s)" % (n, t)
        else:
            e = "%s(%s)" % (fun if fun.startswith("std.") else "(" + fun + ")", t)
        ls.append("c(%d, function () return %s end)" % (n, e))
        out.append((n, kind, what, args, fun, len(ls), how))
    ls.append("std.println(\"kept\", ka, kd, ks, std.cwd() == cwd, std.len(std.args()))")
    return "\n".join(ls) + "\n", out


def judge_line(line, item, labels):
    n, kind, what, args, fun, at, how = item
    f = line.split("\t", 2)
    if f[0] != str(n) or len(f) < 2:
        return "not the result of call %d" % n
    labels.add(how)
    if kind == "ok":
        labels.add("accepted")
        if f[1] == "P":
            m = f[2].split("): ", 1)[-1]
            if "P" not in what or (m.startswith("value (") and fun != "std.typecheck") or m.startswith("incorrect amount"):
                return "%s panics with accepted arguments" % fun
        elif f[1] not in what:
            return "%s yields a value of type %s" % (fun, f[1])
        return None
    if f[1] != "P":
        return "%s does not panic" % fun
    head = "caught panic: Panic in t.hsh (line %d, column " % at
    if not f[2].startswith(head):
        return "the panic of %s is not at the call" % fun
    msg = f[2].split("): ", 1)[-1]
    if kind == "count":
        labels.add("wrong number")
        if msg not in ["incorrect amount of function parameters -- supplied %d, expected %d" % (len(args), k) for k in what]:
            return "%s with %d arguments" % (fun, len(args))
        return None
    labels.add("wrong type")
    for i in what:
        shown = POOL[args[i]][2]
        if msg.startswith("value (%s) has unexpected type, expected " % shown) or (shown is None and msg.startswith("value (") and ") has unexpected type, expected " in msg):
            return None
    return "%s with wrong types" % fun


def types_prog(case):
    t = Template()
    for n, (v, name, twice) in enumerate(case["types"]):
        t.add("let v = %s" % t.q(v) if n == 0 else "v = %s" % t.q(v))
        t.add("std.println(std.type(v), std.type([ v ][0]), std.type(function () v end()))".replace("function () v end()", "(function () v end)()"))
        nm = str_lit(name)
        t.add("std.println(std.catch(function () return [ std.typecheck(v, %s), 1 ] end))" % nm)
        t.add("let e = nil\nlet r = nil" if n == 0 else "e = nil")
        t.add("r = std.catch(function () e = std.try_typecheck(v, %s)\nif e == nil then \"nil\" else [ std.type(e), e.description, e.context ] end end)" % nm)
        t.add("std.println(r)")
        # The very value, not a copy.
        t.add("std.println(std.catch(function () let w = std.typecheck(v, \"array\")\nstd.push(w, 5)\nreturn [ std.len(v), v == w ] end))")
        t.add("std.println(std.catch(function () let w = std.typecheck(v, std.type(v))\nreturn [ w, std.type(w) ] end))")
    return t


def show(case):
    if "types" in case:
        t = types_prog(case)
        return t.text + "# holes: " + str(t.exprs)
    return build(case)[0]


def evaluate(case, rt):
    if "types" in case:
        labels = {"type names"}
        for v, name, _ in case["types"]:
            labels.add("unknown type" if name not in TYPES else "known type")
        v = judge(types_prog(case).prog(), rt, labels=sorted(labels), nontrivial=lambda it: it.counts.get("caught", 0) > 0)
        v.n = len(case["types"])
        return v
    text, items = build(case)
    if not items:
        return Verdict(nontrivial=False, labels=["skipped: nothing to call"])
    o = rt.script(text)
    labels, why = set(), None
    if o.hang or o.rc != 0 or o.err:
        why = "hang" if o.hang else "exit status %r" % o.rc
    else:
        lines = o.out.decode("latin-1").split("\n")
        if len(lines) != len(items) + 2 or lines[-1] != "":
            why = "%d lines of output instead of %d" % (len(lines) - 1, len(items) + 1)
        else:
            for item, line in zip(items, lines):
                why = judge_line(line, item, labels)
                if why:
                    why += ": %r" % line
                    break
            if not why and lines[-2] != "kept\t[ 7, 8 ]\t@[ \"k\": 9 ]\tkept\ttrue\t0":
                why = "an effect of a call that panicked: %r" % lines[-2]
    labels = sorted(labels)
    nt = "wrong type" in labels or "wrong number" in labels
    if why:
        return fail({"why": why, "script": text, "actual": o.brief()}, labels=labels, nontrivial=nt, hang=o.hang, n=len(items))
    return Verdict(labels=labels, nontrivial=nt, n=len(items))
