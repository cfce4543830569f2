"""Generated values carried through every kind of reference while a churn of garbage forces collections, compared with the reference interpreter; and generated garbage (graphs of values, cycles, interrupted calls) produced in long loops, whose resident memory must not grow."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.interp import Budget, Interp
from lang.progs import compare, unshare
from lang.syntax import render
from lang.tmpl import Template

COUNTS = {"quick": 1100, "thorough": 30000}
RULE = ("a case carries up to 6 values through up to 5 nested holders with collections in between (non-trivial: a mutable or allocated value and at least 3 holders), or runs "
        "generated garbage 5000 and then 20000 times and compares resident memory (non-trivial: a cycle or an interrupted call); each value or measured loop is one evaluation")
SAMPLE_LABELS = ("live", "garbage", "cycle", "interrupted", "live data", "commands", "nested holders")
ASSUMPTIONS = ["freed memory is overwritten by the allocator (MALLOC_PERTURB_), so that a use after reclamation is visible", "a leak of under 20 bytes per iteration is not noticed",
               "chains of more than some ten thousand nested values are a known finding"]
LIMIT_KB = 420
WARM, MORE = 5000, 20000

# -- values carried through references while collections happen -------------------------------------
BASE = ["\"s\"", "[ 1, [ 2, \"x\" ], @[ k: [ 3 ] ] ]", "@[ a: [ \"v\" ], b: @[ c: nil ] ]", "std.error(\"desc\", [ 1, @[ z: \"ctx\" ] ])", "std.split(\"a,b,c\", \",\")", "[ ]", "@[ ]", "7", "nil", "2.5", "'c'",
        "(\"con\" ++ \"cat\")", "[ 1, [ std.to_string(2) ] ]", "std.bytes(\"xyz\")", "std.to_string([ 1, \"q\" ])", "std.json.decode(\"[1,{\\\"a\\\":[]}]\")", "std.replace(\"aXb\", \"X\", \"--\")", "[ std.error(\"\", nil) ]",
        "std.hex.decode(\"616263\")", "std.trim(\"  pad \")", "[ [ [ [ [ \"deep\" ] ] ] ] ]", "\"\"", "std.substr(\"abcdef\", 1, 3)", "std.error(std.trim(\" d \"), std.error(\"inner\", \"c\"))",
        "@[ k: std.split(\"1 2\", \" \"), l: std.error(\"e\", @[ ]) ]",
        "biga(65)", "biga(130)", "biga(300)", "bigs(9)", "bigs(13)", "[ biga(70), \"end\" ]", "bigd(20)", "@[ k: bigd(4), l: biga(66) ]", "std.error(bigs(5), biga(80))"]
# What the model, which has few of the standard functions, evaluates instead.
SAME = {"std.split(\"a,b,c\", \",\")": "[ \"a\", \"b\", \"c\" ]", "std.bytes(\"xyz\")": "[ 'x', 'y', 'z' ]", "std.to_string([ 1, \"q\" ])": "\"[ 1, \\\"q\\\" ]\"",
        "std.json.decode(\"[1,{\\\"a\\\":[]}]\")": "[ 1, @[ a: [] ] ]", "std.replace(\"aXb\", \"X\", \"--\")": "\"a--b\"", "std.hex.decode(\"616263\")": "\"abc\"", "std.trim(\"  pad \")": "\"pad\"",
        "std.substr(\"abcdef\", 1, 3)": "\"bcd\"", "std.error(std.trim(\" d \"), std.error(\"inner\", \"c\"))": "std.error(\"d\", std.error(\"inner\", \"c\"))",
        "@[ k: std.split(\"1 2\", \" \"), l: std.error(\"e\", @[ ]) ]": "@[ k: [ \"1\", \"2\" ], l: std.error(\"e\", @[ ]) ]"}
assert all(k in BASE for k in SAME)
HOLD = {
    "argument": "idc(E)",
    "array literal": "[ E, churn() ][0]",
    "array literal, last": "[ churn(), E, churn() ][1]",
    "dict literal": "@[ k: E, j: churn() ].k",
    "bound self": "std.bind(E, function () churn()\n return self end)()",
    "iterator": "iterc(E)",
    "dict iterator": "iterd(E)",
    "error context": "errc(E)",
    "captured": "capc(E)()",
    "captured, assigned": "setc(E)",
    "for loop": "forc(E)",
    "push and pop": "popc(E)",
    "dict key": "keyc(E)",
    "recursion": "deepc(12, E)",
    "method": "@[ v: E, get: function () churn()\n return self.v end ].get()",
    "catch": "std.catch(function () idc(E) end)",
    "pending arguments": "third(churn(), idc(1), E, churn())",
    "first of pending": "first(E, churn(), [ churn() ])",
    "last reference": "lastc(E)",
    "cycle": "cycc(E)",
    "dict cycle": "dcycc(E)",
    "compared": "cmpc(E)",
    "conditional": "(if churn() == nil then E else 0 end)",
    "block value": "(if true then let bv = E\n churn()\n bv else nil end)",
    "try": "tryc(E)",
    "early return": "retc(E)",
    "while": "whilec(E)",
    "assigned element": "elemc(E)",
    "shared closures": "sharec(E)",
    "replaced": "replc(E)",
    "sorted": "sortc(E)",
    "caught panic between": "panc(E)",
    "bind in bind": "std.bind(1, std.bind(E, function () churn()\n return self end))()",
    "iterator in closure": "itcapc(E)",
    "typecheck": "std.typecheck(E, std.type(E))",
    "returned function": "retf(E)()()",
    "loop variable captured": "loopc(E)",
    "nested error": "errc(std.error(\"outer\", E)).context",
    "index expression": "[ 0, E ][first(1, churn(), nil)]",
    "popped while iterating": "iterpop(E)",
}
PRELUDE = '''
function biga(n) let a = []
 for i in std.range(0, n, 1) do std.push(a, [ i ]) end
 return a end
function bigs(n) let s = "0123456789abcdef"
 for i in std.range(0, n, 1) do s = s ++ s end
 return s end
function bigd(n) let d = @[ ]
 for i in std.range(0, n, 1) do d[[ i, "key" ]] = [ i ] end
 return d end
function idc(x) churn()
 return x end
function third(a, b, c, d) churn()
 return c end
function first(a, b, c) churn()
 return a end
function iterc(x) let it = std.iter([ 0, x, 1 ])
 it()
 x = nil
 churn()
 let r = it()
 churn()
 return r.value end
function iterd(x) let it = std.iter(@[ k: x ])
 x = nil
 churn()
 let r = it()
 it = nil
 churn()
 return r.value.value end
function errc(x) let e = std.error("d", x)
 x = nil
 churn()
 return e.context end
function cmpc(x) let y = [ x ]
 x = nil
 if [ y[0], first(1, churn(), nil) ] == [ y[0], churn() ] then nil else y[0] end end
function capc(x) churn()
 return function () churn()
 return x end end
function setc(v) let x = nil
 let set = function (y) x = y end
 set(v)
 v = nil
 set = nil
 churn()
 return x end
function forc(v) let r = nil
 for y in std.iter([ 1, v ]) do churn()
 r = y end
 churn()
 return r end
function popc(v) let a = [ churn() ]
 std.push(a, v)
 v = nil
 churn()
 v = std.pop(a)
 a = nil
 churn()
 return v end
function keyc(v) let d = @[ ]
 d[v] = 1
 v = nil
 churn()
 let k = std.iter(d)().value.key
 d = nil
 churn()
 return k end
function deepc(n, v) let w = [ v ]
 v = nil
 if n == 0 then churn()
 return w[0] end
 let r = deepc(n - 1, w[0])
 churn1()
 return r end
function lastc(v) let a = [ v, churn() ]
 v = nil
 let x = a[0]
 a[0] = nil
 a = nil
 churn()
 return x end
function cycc(v) let a = [ v ]
 std.push(a, a)
 v = nil
 churn()
 return a[1][1][0] end
function dcycc(v) let d = @[ v: v ]
 let e = @[ d: d ]
 d["e"] = e
 d = nil
 v = nil
 churn()
 return e.d.e.d.v end
function tryc(v) let f = function () churn()
 return v end
 if std.type(v) == "error" then return f() end
 return f()? end
function retc(v) for i in std.range(0, 3, 1) do let t = [ v ]
 churn1()
 if i == 1 then return t[0] end end end
function whilec(v) let i = 0
 let box = @[ ]
 while i < 3 do let t = if i == 0 then v else box.t end
 v = nil
 box["t"] = t
 t = nil
 churn()
 i = i + 1 end
 return box.t end
function elemc(v) let a = [ nil, nil ]
 a[idc(1)] = first(v, nil, churn())
 v = nil
 churn()
 return a[1] end
function sharec(v) let get = function () churn()
 v end
 let get2 = function () get() end
 let set = function (x) v = x end
 set([ v ])
 churn()
 get = get2
 return if std.len(v) == 1 then v[0] else nil end end
function replc(v) let a = [ v, [ v ] ]
 v = "other"
 a[0] = "gone"
 churn()
 return a[1][0] end
function sortc(v) let a = [ [ 2, v ], [ 1 ] ]
 v = nil
 churn()
 std.sort(a)
 churn()
 return a[1][1] end
function panc(v) let a = [ v ]
 v = nil
 std.catch(function () third(1, [ a ], churn(), std.panic([ a ])) end)
 churn()
 return a[0] end
function itcapc(v) let it = std.iter([ v ])
 v = nil
 let f = function () churn()
 return it() end
 it = f
 return f end
function retf(v) return function () churn()
 return function () churn()
 return v end end end
function loopc(v) let fs = []
 for i in std.iter([ v ]) do std.push(fs, function () churn()
 return i end) end
 v = nil
 churn()
 return fs[0]() end
function iterpop(v) let a = [ v, v ]
 v = nil
 let r = nil
 for x in std.iter(a) do churn()
 r = x
 if std.len(a) > 1 then std.pop(a) end end
 return r end
'''
CHURN = [
    "function churn() let i = 0\n while i < N do let a = [ i, \"t\" ++ \"u\" ]\n std.push(a, a)\n i = i + 1 end\n return nil end",
    "function churn() let i = 0\n while i < N do let d = @[ x: @[ y: i ] ]\n d[\"self\"] = function () d end\n i = i + 1 end\n return nil end",
    "function churn() for i in std.range(0, N, 1) do std.error(std.to_string(i), [ i ]) end\n return nil end",
    "function churn() for i in std.range(0, N, 1) do std.bind([ i ], function () i end) end\n return nil end",
    "function churn() for x in std.iter(@[ a: 1, b: 2, c: 3 ]) do let i = 0\n while i < N do [ [ x ], std.split(\"a b\", \" \") ]\n i = i + 3 end end\n return nil end",
]
HOLDERS = list(HOLD)
# itcapc would call itself; keyc needs comparable, acyclic values (all are).
HOLDERS.remove("iterator in closure")


@st.composite
def live_case(draw):
    items = draw(st.lists(st.tuples(st.integers(0, len(BASE) - 1), st.lists(st.integers(0, len(HOLDERS) - 1), min_size=0, max_size=5)).map(list), min_size=1, max_size=6))
    return {"kind": "live", "items": items, "churn": draw(st.integers(0, len(CHURN) - 1)), "n": draw(st.sampled_from([1, 30, 100, 100, 400])),
            "keep": draw(st.sampled_from(["vars", "array", "dict", "closures"]))}


def live_text(case, model):
    t = ["let N = %d" % (0 if model else case["n"]), CHURN[case["churn"]] if not model else "function churn() nil end",
         "function churn1() if N > 100 then nil else churn() end end" if not model else "function churn1() nil end", PRELUDE]
    names = []
    for i, (b, hs) in enumerate(case["items"]):
        e = SAME.get(BASE[b], BASE[b]) if model else BASE[b]
        for h in hs:
            e = HOLD[HOLDERS[h]].replace("E", e, 1) if HOLDERS[h] != "typecheck" else "checkc(%s)" % e
        t.append("let v%d = %s\nstd.println(\"first\", v%d)" % (i, e, i))
        names.append("v%d" % i)
    if case["keep"] == "array":
        t.append("let all = [ %s ]" % ", ".join(names))
        names2 = ["all[%d]" % i for i in range(len(names))]
    elif case["keep"] == "dict":
        t.append("let all = @[ %s ]" % ", ".join("k%d: %s" % (i, n) for i, n in enumerate(names)))
        names2 = ["all.k%d" % i for i in range(len(names))]
    elif case["keep"] == "closures":
        t += ["let f%d = capc(%s)" % (i, n) for i, n in enumerate(names)]
        names2 = ["f%d()" % i for i in range(len(names))]
    else:
        names2 = names
    if names2 is not names:
        t += ["%s = nil" % n for n in names]
    t.append("churn()\nchurn()")
    t += ["std.println(%s)" % n for n in names2]
    return "\n".join(t).replace("function idc(x)", "function checkc(x) churn()\n return std.typecheck(x, std.type(x)) end\nfunction idc(x)", 1) + "\n"


# -- garbage ----------------------------------------------------------------------------------------
NODE = {
    "array": "let n%d = [ i ]", "dict": "let n%d = @[ x: i ]", "error": "let n%d = std.error(\"e\", [])", "closure": "let n%d = nil\nlet c%d = function () n%d end", "bind": "let n%d = []\nlet c%d = std.bind(n%d, c0f)",
    "iter": "let n%d = [ 1 ]\nlet c%d = std.iter(n%d)", "dict iter": "let n%d = @[ a: [] ]\nlet c%d = std.iter(@[ a: n%d, b: 1 ])", "bound closure": "let n%d = @[]\nlet c%d = std.bind(n%d, function () n%d end)",
    "string": "let n%d = std.to_string(i) ++ \"x\"", "iter string": "let n%d = std.iter(\"abc\")", "range": "let n%d = std.range(0, 3, 1)",
}
ACTS = {
    "caught panic": "std.catch(function () std.panic([ i ]) end)",
    "caught in arguments": "std.catch(function () keep3([ i ], std.panic(1), 2) end)",
    "caught deep": "std.catch(function () rec(8, function () [ i ][5] end) end)",
    "caught in literal": "std.catch(function () [ [ i ], @[ a: std.panic([ i ]) ] ] end)",
    "caught in loop": "std.catch(function () for x in std.iter([ [ 1 ], 2 ]) do std.panic(x) end end)",
    "caught type error": "std.catch(function () [ i ] + [ 1 ] end)",
    "caught call": "std.catch(function () keep3([ i ]) end)",
    "caught native": "std.catch(function () std.len([ i ], 2, @[]) end)",
    "caught in bind": "std.catch(std.bind([ i ], function () self.x end))",
    "try in arguments": "tryargs([ i ])",
    "try in loop": "tryloop([ i ])",
    "try in literal": "trylit([ i ])",
    "return in loops": "retloops(i)",
    "break": "for x in std.iter([ [ 1 ], [ 2 ], [ 3 ] ]) do if x == [ 2 ] then break end end",
    "break while": "while true do let t = [ i ]\n if t == t then break end end",
    "recursion": "rec(10, function () [ i ] end)",
    "partial iteration": "let it = std.iter(@[ a: [ 1 ], b: [ 2 ] ])\nit()",
    "regex": "if i % 40 == 0 then std.regex(\"a+(b|c)\").split(\"xaby\") end",
    "other regex": "if i % 40 == 0 then std.regex(\"a+\" ++ std.to_string(i)).split(\"xaby\") end",
    "other patterns": "if i % 20 == 0 then std.glob(\"*\" ++ std.to_string(i)) end",
    "other errors": "std.error(\"e\" ++ std.to_string(i), i)",
    "other json": "std.json.decode(\"{\\\"k\" ++ std.to_string(i) ++ \"\\\":[\" ++ std.to_string(i) ++ \"]}\")",
    "other members": "let om = @[ ]\nom[\"m\" ++ std.to_string(i)] = i\nstd.catch(function () om.missing end)",
    "other panics": "std.catch(function () std.panic(\"p\" ++ std.to_string(i)) end)",
    "other names": "std.env(\"NAME\" ++ std.to_string(i))",
    "other substrings": "std.substr(\"abcdef\" ++ std.to_string(i), 2, 5)\nstd.split(std.to_string(i), \"1\")\nstd.contains(\"x\" ++ std.to_string(i), '9')",
    "other commands": "if i % 100 == 0 then let oc = std.to_string(i)\n${ V=$oc hx out $oc } end",
    "other formats": "std.hex.encode(std.to_string(i))\nstd.base64.encode(std.to_string(i))\nstd.int(std.to_string(i))\nstd.float(std.to_string(i))",
    "bad regex": "if i % 40 == 0 then std.regex(\"(\") end",
    "json": "std.json.encode(std.json.decode(\"[1,{\\\"a\\\":[2]}]\"))",
    "bad json": "std.json.decode(\"[1,\")",
    "strings": "std.replace(std.hex.encode(std.to_string(i)), \"3\", \"\") ++ std.trim(\"  x \")",
    "new strings as keys": "let ks = @[]\nks[\"k\" ++ std.to_string(i)] = i",
    "bytes": "std.bytes(\"hello\")",
    "sort": "let sa = [ [ 3 ], [ 1 ], \"x\" ]\nstd.sort(sa)",
    "concat": "\"a\" ++ std.to_string([ i ]) ++ \"b\"",
    "shared captures": "let sc = [ i ]\nlet f1 = function () sc = f2(sc)\n sc end\nf1()",
    "counter": "let cn = 0\nlet inc = function () cn = cn + 1\n cn end\ninc()\ninc()",
    "environment": "std.env(\"HOME\")",
    "import": "if i % 50 == 0 then std.import(\"m.hsh\") end",
    "failed import": "if i % 50 == 0 then std.catch(function () std.import(\"none.hsh\") end) end",
    "command": "if i % 100 == 0 then ${ hx out 616263 } end",
    "command fails": "if i % 100 == 0 then ${ hx exit 3 } end",
    "plain command": "if i % 100 == 0 then { hx exit 0 } end",
    "async": "if i % 100 == 0 then &{ hx exit 0 }.join() end",
    "read": "std.read()",
    "typecheck": "std.try_typecheck(i, \"string\")",
    "base64": "std.base64.decode(std.base64.encode(\"abc\"))",
    "glob": "if i % 20 == 0 then std.glob(\"*\") end",
    "args": "std.args()",
    "cwd": "std.cwd()",
    "contains": "std.contains([ [ i ], 2 ], [ i ])",
    "float": "std.float(\"1.5\") + std.rand()",
    "overwrite": "slot = [ slot2, i ]\nslot2 = slot[1]",
    "grow and shrink": "std.push(box, [ i ])\nstd.pop(box)",
    "replace entries": "table[i % 7] = [ i ]",
    "immediately called": "f2((function (x) [ x, i ] end)(std.bind(i, function () self end)))",
    "method": "@[ a: [ i ], m: function () self.a end ].m()",
    "nested functions": "f2((function () let q = [ i ]\n return function () function () q end end end)()()())",
}
INTERRUPTED = {k for k in ACTS if "caught" in k or "try in" in k or k.startswith(("return", "break"))}
SLOW = {"command", "command fails", "plain command", "async", "import", "failed import", "other commands"}
LIVE = ["", "let live = [ 1, \"two\", @[ three: [ 3 ] ] ]", "let live = []\nfor j in std.range(0, 300, 1) do std.push(live, [ j, @[ k: j ] ]) end", "let live = @[]\nfor j in std.range(0, 200, 1) do live[std.to_string(j)] = function () j end end"]
GPRE = '''function c0f() self end
function keep3(a, b, c) a end
function rec(n, f) let loc = [ n ]
 if n == 0 then return f() end
 rec(n - 1, f) end
function tryargs(x) keep3(x, std.error("e", x)?, x) end
function tryloop(x) for y in std.iter([ x, std.error("e", x) ]) do keep3(y?, y, 1) end end
function trylit(x) [ x, @[ a: x, b: std.error("e", 1)? ] ] end
function retloops(n) for a in std.iter([ [ 1 ], [ 2 ] ]) do let q = 0
 while true do q = q + 1
 for b in std.iter(@[ k: [ a ] ]) do if q == 2 then return [ a, b ] end end end end end
function f2(x) [ x ] end
let slot = nil
let slot2 = nil
let box = [ 1 ]
let table = @[]
'''


@st.composite
def garbage_case(draw):
    kinds = draw(st.lists(st.sampled_from(list(NODE)), min_size=0, max_size=4))
    edges = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.booleans()).map(list), max_size=5)) if kinds else []
    acts = draw(st.lists(st.sampled_from(list(ACTS)), min_size=0 if kinds else 1, max_size=4, unique=True))
    return {"kind": "garbage", "nodes": kinds, "edges": edges, "acts": acts, "live": draw(st.integers(0, len(LIVE) - 1)), "place": draw(st.sampled_from(["function", "top", "closure"]))}


def garbage_text(case):
    body, labels = [], set()
    k = len(case["nodes"])
    for i, kind in enumerate(case["nodes"]):
        body.append(NODE[kind].replace("%d", str(i)))
    for a, b, which in case["edges"]:
        a, b = a % k, b % k
        src = case["nodes"][a]
        dst = "c%d" % b if which and "c%d" in NODE[case["nodes"][b]] else "n%d" % b
        if src in ("array", "bind", "iter"):
            body.append("std.push(n%d, %s)" % (a, dst))
        elif src in ("dict", "bound closure", "dict iter"):
            body.append("n%d[\"k%d\"] = %s" % (a, b, dst))
        elif src == "closure":
            body.append("n%d = %s" % (a, dst))
        elif src == "error":
            body.append("std.push(n%d.context, %s)" % (a, dst))
        else:
            continue
        if a <= b:
            labels.add("cycle")
    for a in case["acts"]:
        body.append(ACTS[a])
        if a in INTERRUPTED:
            labels.add("interrupted")
        if a in SLOW:
            labels.add("commands")
    if case["live"] > 1:
        labels.add("live data")
    body = "\n".join(body)
    t = [GPRE, LIVE[case["live"]], "let i = 0\nlet before = nil\nlet after = nil"]
    if case["place"] == "top":
        t.append("while i < %d do\n%s\ni = i + 1 end\nbefore = ${ hx rss }.stdout\nwhile i < %d do\n%s\ni = i + 1 end" % (WARM, body, WARM + MORE, rename(body)))
    else:
        if case["place"] == "function":
            t.append("function step(i)\n%s\nend" % body)
        else:
            t.append("let step = (function (outer) return function (i)\nouter = [ i ]\n%s\nend end)(1)" % body)
        t.append("while i < %d do step(i)\ni = i + 1 end\nbefore = ${ hx rss }.stdout\nwhile i < %d do step(i)\ni = i + 1 end" % (WARM, WARM + MORE))
    t.append("after = ${ hx rss }.stdout\nstd.println(std.trim(before), std.trim(after))")
    return "\n".join(t) + "\n", labels


def rename(body):
    # Declarations inside the two loops have scopes of their own.
    return body


def deep_text(n):
    return "let l = nil\nlet i = 0\nwhile i < %d do l = [ l ]\ni = i + 1 end\nstd.println(\"built\")\n" % n


def pinned():
    """Every kind of garbage once, whatever the seed."""
    acts, out = list(ACTS), []
    for i in range(0, len(acts), 4):
        out.append({"kind": "garbage", "nodes": [], "edges": [], "acts": acts[i:i + 4], "live": i // 4 % len(LIVE), "place": ["function", "top", "closure"][i // 4 % 3]})
    for i, k in enumerate(NODE):
        out.append({"kind": "garbage", "nodes": ["array", k, "dict"], "edges": [[1, 1, True], [0, 1, True], [1, 0, False], [1, 2, False], [2, 1, True]], "acts": [], "live": i % 2, "place": ["function", "top", "closure"][i % 3]})
    return out


PINNED = pinned()


def strategy(tier):
    return st.integers(0, 9).flatmap(lambda k: garbage_case() if k == 0 else live_case())


def show(case):
    if case["kind"] == "deep":
        return deep_text(case["n"])
    return live_text(case, False) if case["kind"] == "live" else garbage_text(case)[0]


def evaluate(case, rt):
    if case["kind"] == "deep":
        o = rt.script(deep_text(case["n"]))
        if o.hang or o.rc != 0 or o.out != b"built\n":
            return fail({"why": "a chain of %d arrays: exit status %r" % (case["n"], o.rc), "actual": o.brief()}, labels=["deep"], hang=o.hang)
        return Verdict(labels=["deep"])
    if case["kind"] == "live":
        return live(case, rt)
    text, labels = garbage_text(case)
    o = rt.script(text, stdin=b"line\n" * (WARM + MORE), files={"m.hsh": b"@[ a: [ 1 ] ]\n"}, timeout=120)
    labels |= {"garbage"} | set(case["acts"]) | set(case["nodes"])
    nt = bool(labels & {"cycle", "interrupted"})
    why = None
    if o.hang or o.rc != 0 or o.err:
        why = "hang" if o.hang else "exit status %r" % o.rc
    else:
        a, b = numbers(o)
        if a is None:
            why = "not the two numbers expected: %r" % o.out[:200]
        elif a <= 0 or b <= 0:
            return Verdict(labels=["skipped: memory cannot be read"], nontrivial=False)
        elif b - a > LIMIT_KB:
            # A second look, to exclude a fluke of the allocator.
            p = rt.script(text, stdin=b"line\n" * (WARM + MORE), files={"m.hsh": b"@[ a: [ 1 ] ]\n"}, timeout=120)
            c, d = numbers(p)
            if c is None or d - c > LIMIT_KB:
                why = "resident memory grows from %d to %d kB in %d iterations" % (a, b, MORE)
    labels = sorted(labels)
    if why:
        return fail({"why": why, "script": text, "actual": o.brief()}, labels=labels, nontrivial=nt, hang=o.hang)
    return Verdict(labels=labels, nontrivial=nt)


def numbers(o):
    try:
        a, b = map(int, o.out.split())
        return a, b
    except ValueError:
        return None, None


def live(case, rt):
    t = Template()
    t.add(live_text(case, True))
    prog = unshare(t.prog())
    labels = {"live"}
    depth = max((len(h) for _, h in case["items"]), default=0)
    if depth > 1:
        labels.add("nested holders")
    for _, hs in case["items"]:
        labels |= {HOLDERS[h] for h in hs}
    n = len(case["items"])
    nt = depth >= 3 and any(BASE[b][0] in "[@s(b" for b, _ in case["items"])
    try:
        it = Interp(prog, render(prog), steps=200000).run()
    except Budget:
        return Verdict(labels=["skipped: too long for the model"], nontrivial=False)
    text = live_text(case, False)
    o = rt.script(text, env={"MALLOC_PERTURB_": "165"})
    why = compare(it, o)
    if why:
        return fail({"why": why, "script": text, "expected": it.stdout.decode("latin-1")[-1500:], "actual": o.brief()}, labels=sorted(labels), nontrivial=nt, hang=o.hang, n=n)
    return Verdict(labels=sorted(labels), nontrivial=nt, n=n)
