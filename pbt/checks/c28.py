"""Generated command lines, script arguments, inputs and endings of scripts (from a file or standard input, with and without options), against a model of the documented behaviour."""
import os

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.gen import programs
from lang.interp import Budget, Interp
from lang.progs import compare, unshare
from lang.syntax import render, str_lit

COUNTS = {"quick": 15000, "thorough": 350000}
RULE = ("a case is one command line with its script, input and ending; non-trivial: it has script arguments, options or input, or the script ends otherwise than "
        "normally")
SAMPLE_LABELS = ("arguments", "odd bytes", "option-like arguments", "script on stdin", "same both ways", "exit", "exit out of range", "panic", "static error", "--check", "invalid option",
                 "unreadable", "read", "large output", "help", "printing options")
ASSUMPTIONS = ["options are those --help lists; their printed forms (--lex, --ast, --program) are not compared, only the exit status and the script's output after them"]

argument = st.integers(0, 5).flatmap(lambda k: [
    st.text(alphabet="abc", max_size=5), st.sampled_from(["", " ", "-", "--", "-x", "--check", "--lex", "--help", "-h", "-V", "--version", "--", "-1", "a b", "*", "$x", "'", "\"", "\\",
                                                          "--foo=bar", "\n", "=", "@", "t.hsh", "~", "[ 1 ]", "\xc3\xa9", "\xff", "\x01\x7f", "---", "-c", "--ast", "+x"]),
    st.binary(max_size=8).map(lambda b: b.replace(b"\0", b"").decode("latin-1")), st.just("x" * 3000), st.integers(-5, 5).map(str), st.sampled_from(["--check", "-", "--", "-h", ""])][k])


@st.composite
def args_case(draw):
    args = draw(st.lists(argument, max_size=draw(st.sampled_from([2, 5, 12, 60]))))
    if draw(st.integers(0, 11)) == 0:
        # Many, told apart by their number.
        n = draw(st.sampled_from([127, 128, 200, 254, 255, 256, 257, 258, 300, 511, 513, 1000, 4097]))
        args += ["n%d" % i for i in range(n - len(args))]
    return {"kind": "args", "args": args,
            "how": draw(st.sampled_from(["file", "file", "file", "path", "dash", "none", "ddash", "check after"]))}


@st.composite
def both_case(draw):
    return {"kind": "both", "prog": draw(programs(feats={"catch": 4}, budget=20, wild=draw(st.sampled_from([0, 3])), lo=2, hi=8)), "args": draw(st.lists(argument, max_size=2))}


ENDS = ["normal", "exit", "exit", "exit", "exit", "exit range", "panic", "panic", "syntax", "semantic", "bad exit"]
WHERE = ["top", "function", "catch", "for", "iterator", "while", "method", "args", "module", "deep", "bound", "if", "capture"]
OUT = st.tuples(st.sampled_from(["print", "println"]), st.one_of(st.text(alphabet="ab \n", max_size=6), st.sampled_from(["\n", "", "\xff", "x" * 1023, "x" * 1025, "y\n" * 700, "z" * 70000, "w" * 9000 + "\n"])))


# The value of the last statement of a script means nothing.
TAILS = ["", "", "1", "0", "-1", "5 + 1", "127", "255", "256", "false", "true", "nil", "\"x\"", "std.error(\"e\", 3)", "[ 1 ]", "@[ status: 4 ]", "'a'", "2.0", "function () 1 end",
         "std.catch(function () std.panic(\"c\") end)", "let last = 3", "if true then 7 end", "(function () return 9 end)()", "{ hx exit 5 }", "${ hx exit 6 }", "&{ hx exit 7 }", "{ hx kill 9 ? }",
         "for i in std.range(0, 2, 1) do 4 end", "std.error(\"e\", @[ status: 8 ])"]


@st.composite
def end_case(draw):
    e = draw(st.sampled_from(ENDS))
    n = draw(st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 2, 3, 100, 101, 126, 127, 128, 129, 137, 143, 254, 255])))
    if e == "exit range":
        n = draw(st.sampled_from([256, -1, 257, 512, -128, -256, 65536, 1 << 31, 1 << 32, -(1 << 31), (1 << 63) - 1, 1000, 300, 383]))
    return {"kind": "end", "outs": [list(o) for o in draw(st.lists(OUT, max_size=4))], "end": e, "n": n, "where": draw(st.sampled_from(WHERE)), "stdin": draw(st.booleans()),
            "cmd": draw(st.sampled_from([None, None, "out", "async", "fail"])), "tail": draw(st.sampled_from(TAILS)), "bad": draw(st.integers(0, 5)), "sep": draw(st.sampled_from(["\n", " ", "\n\n# c\n"]))}


@st.composite
def option_case(draw):
    fl = draw(st.lists(st.sampled_from(["--check", "--lex", "--ast", "--program"]), unique=True, max_size=4))
    bad = draw(st.sampled_from([None] * 20 + ["--foo", "-x", "--Check", "--chec", "-c", "--lexx", "-q"]))
    rep = None
    if bad:
        rep = draw(st.integers(0, len(fl)))
        fl.insert(rep, bad)
    special = draw(st.sampled_from([None] * 16 + ["--help", "-h", "--version", "-V"]))
    return {"kind": "option", "flags": fl, "bad": bad, "special": special, "script": draw(st.sampled_from(["ok", "ok", "panic", "exit", "semantic", "syntax", "effects", "both", "missing"])),
            "stdin": draw(st.booleans()), "args": draw(st.lists(argument.filter(utf8) if bad else argument, max_size=2))}


def utf8(s):
    """An invalid option followed by an argument that is not UTF-8 is a known finding."""
    try:
        s.encode("latin-1").decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


# Beyond the sizes of buffers and pipes.
LONG = [16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 200000]
LINES = st.one_of(st.binary(max_size=20).map(lambda b: b.replace(b"\n", b"").decode("latin-1")), st.sampled_from(["", " ", "abc", "\r", "a\tb", "x" * 8191, "x" * 8192, "y" * 20000, "\xff", "\0", "a\0b", "\xc3\xa9"]),
                  st.text(alphabet="abc ", max_size=10))


@st.composite
def read_case(draw):
    ls = draw(st.lists(LINES, max_size=8))
    if draw(st.integers(0, 7)) == 0:
        n = draw(st.sampled_from(LONG))
        ls[draw(st.integers(0, len(ls))):] = ["ab\r c"[draw(st.integers(0, 4))] * n] + ls[:2]
    return {"kind": "read", "lines": ls, "nl": draw(st.booleans()), "prompts": draw(st.lists(st.one_of(st.none(), st.none(), st.sampled_from(["> ", "", "\n", "\xff", "name: "])), max_size=10)),
            "cmd": draw(st.booleans())}


unread = st.builds(lambda m, a: {"kind": "unreadable", "mode": m, "args": a}, st.sampled_from([0, 0o200, 0o111, 0o300]), st.lists(argument, max_size=2))


def strategy(tier):
    return st.integers(0, 11).flatmap(lambda k: [args_case(), args_case(), args_case(), both_case(), both_case(), end_case(), end_case(), end_case(), option_case(), option_case(), read_case(),
                                                 st.integers(0, 3).flatmap(lambda j: unread if j == 0 else read_case())][k])


ARGS = "let a = std.args()\nstd.println(std.len(a), std.type(a))\nfor x in std.iter(a) do std.println(std.type(x), std.hex.encode(x)) end\n"
NL = "\n"
BAD_SYNTAX = ["let x = )", "if true then", "for x do end", "\"open", "function f( end", "1 +", ]
BAD_SEMANTIC = ["zz", "let a = 1 let a = 2", "break", "@[ a: 1, a: 2 ]", "self", "nothing = 5"]


def evaluate(case, rt):
    return {"args": run_args, "both": run_both, "end": run_end, "option": run_option, "read": run_read, "unreadable": run_unreadable}[case["kind"]](case, rt)


def verdict(o, rc, out, err, labels, nt, detail):
    """err: exact bytes, or a predicate; out likewise."""
    why = None
    if o.hang:
        why = "hang"
    elif o.rc != rc:
        why = "exit status %r instead of %r" % (o.rc, rc)
    elif not (out(o.out) if callable(out) else o.out == out):
        why = "standard output differs"
    elif not (err(o.err) if callable(err) else o.err == err):
        why = "standard error differs"
    if why:
        d = {"why": why, "expected": {"rc": rc, "stdout": "(predicate)" if callable(out) else out[-1500:].decode("latin-1")}, "actual": o.brief()}
        d.update(detail)
        return fail(d, labels=labels, nontrivial=nt, hang=o.hang)
    return Verdict(labels=labels, nontrivial=nt)


def enc(args):
    return [a.encode("latin-1") for a in args]


def run_args(case, rt):
    args = [a for a in case["args"]]
    how = case["how"]
    labels = ["arguments"]
    d = rt.fresh()
    try:
        with open(os.path.join(d, "t.hsh"), "w") as f:
            f.write(ARGS)
        stdin = b""
        seen = args
        if how == "file":
            line = ["t.hsh"] + args
        elif how == "path":
            line = [os.path.join(d, "t.hsh")] + args
        elif how == "ddash":
            line = ["--", "t.hsh"] + args
        elif how == "check after":
            # Options after the script belong to the script.
            seen = ["--check"] + args + ["--lex", "-h"]
            line = ["./t.hsh"] + seen
        elif how == "dash":
            line, stdin = ["-"] + args, ARGS.encode()
            labels.append("script on stdin")
        else:
            # The first argument is no file: it is the script's.
            if args and not args[0].startswith("-") and args[0] and os.path.isfile(os.path.join(d, args[0])):
                args = args[1:]
            seen = ["nofile"] + args
            line, stdin = seen, ARGS.encode()
            labels.append("script on stdin")
        o = rt.exec(enc(line), d, stdin=stdin)
    finally:
        rt.drop(d)
    if any(not a.isascii() or any(ord(c) < 32 for c in a) for a in seen):
        labels.append("odd bytes")
    if any(a.startswith("-") for a in seen):
        labels.append("option-like arguments")
    exp = "%d\tarray\n" % len(seen) + "".join("string\t%s\n" % a.encode("latin-1").hex() for a in seen)
    return verdict(o, 0, exp.encode(), b"", labels, bool(seen), {"command line": line})


def run_both(case, rt):
    prog = unshare(case["prog"])
    r = render(prog)
    try:
        a = Interp(prog, r, path="t.hsh").run()
        b = Interp(prog, r, path="<stdin>").run()
    except Budget:
        return Verdict(nontrivial=False, labels=["skipped: too long for the model"])
    if a.unordered or b.unordered:
        return Verdict(nontrivial=False, labels=["skipped: depends on the order of a dict"])
    args = enc(case["args"])
    labels = ["same both ways", "script on stdin"] + (["panic"] if a.panic else [])
    d = rt.fresh()
    try:
        with open(os.path.join(d, "t.hsh"), "wb") as f:
            f.write(r.text)
        o1 = rt.exec([b"t.hsh"] + args, d)
        o2 = rt.exec([b"-"] + args, d, stdin=r.text)
        o3 = rt.exec([], d, stdin=r.text)
    finally:
        rt.drop(d)
    for it, o, where in ((a, o1, "as a file"), (b, o2, "as -"), (b, o3, "on standard input")):
        why = compare(it, o)
        if why:
            return fail({"why": "%s: %s" % (where, why), "script": r.text.decode("utf-8", "backslashreplace"), "expected": {"rc": it.status, "stdout": it.stdout.decode("utf-8", "backslashreplace")[-1500:],
                         "stderr": it.stderr.decode("utf-8", "backslashreplace")}, "actual": o.brief()}, labels=labels, nontrivial=True, hang=o.hang)
    return Verdict(labels=labels, nontrivial=len(a.stdout) > 20, n=3)


def ending(case):
    """(statements, exit status, panic text or None, files)"""
    e, n, where = case["end"], case["n"], case["where"]
    num = str(n) if n >= 0 else "(-%d)" % -n
    panic = None
    if e in ("exit", "exit range"):
        expr = "std.exit(%s)" % num
        rc = n
        if e == "exit range":
            rc, panic = 127, "invalid value (%d), expected valid exit code" % n
    elif e == "panic":
        expr, rc, panic = [("std.panic(\"p\")", 127, "std.panic(\"p\")"), ("1 / 0", 127, "division by zero"), ("nil()", 127, "function"), ("[ 1 ][5]", 127, "out of bounds"),
                           ("std.assert(false)", 127, "assertion failed"), ("std.len(5)", 127, "unexpected type")][case["bad"]]
        if expr == "nil()":
            expr = "(nil)()"
            panic = ""
    elif e == "bad exit":
        expr = "std.exit(%s)" % ["\"1\"", "1.0", "nil", "true", "1, 2", ""][case["bad"]]
        rc, panic = 127, ""
    else:
        return "", (2 if e in ("syntax", "semantic") else 0), None, {}
    files = {}
    if panic is not None and where == "catch":
        where = "function"
    after = "\nstd.println(\"not reached\")\n"
    if where == "function":
        s = "function f() let a = %s\nstd.println(\"no\") end\nlet r = [ 1, f(), 2 ]" % expr
    elif where == "catch":
        s = "let r = std.catch(function () std.catch(function () return %s end) end)" % expr
    elif where == "for":
        s = "for x in std.range(0, 3, 1) do if x == 1 then let y = %s end end" % expr
    elif where == "iterator":
        s = "for x in function () return %s end do std.println(\"no\") end" % expr
    elif where == "while":
        s = "while true do let y = %s end" % expr
    elif where == "method":
        s = "let o = @[ m: function () return [ self, %s ] end ]\no.m()" % expr
    elif where == "args":
        s = "std.println(\"no\", %s, \"no\")" % expr
    elif where == "module":
        s = "let m = std.import(\"m.hsh\")"
        files["m.hsh"] = ("let q = 1\nlet y = %s\nstd.println(\"no\")\n" % expr).encode()
    elif where == "deep":
        s = "function g(n) if n == 0 then return %s else return 1 + g(n - 1) end end\ng(40)" % expr
    elif where == "bound":
        s = "std.bind(1, function (a) return %s end)(2)" % expr
    elif where == "if":
        s = "let r = if true then %s else 5 end" % expr
    elif where == "capture":
        s = "let r = @[ a: [ %s ] ]" % expr
    else:
        s = "let top = %s" % expr
    return s + after, rc, panic, files


def run_end(case, rt):
    text, out = "", b""
    sep = case["sep"]
    static = case["end"] in ("syntax", "semantic")
    for how, s in case["outs"]:
        text += "std.%s(%s)%s" % (how, str_lit(s), sep)
        out += s.encode("latin-1") + (b"\n" if how == "println" else b"")
    if case["cmd"] == "out":
        text += "{ hx out 636d64 }" + sep
        out += b"cmd"
    elif case["cmd"] == "async":
        text += "let j = &{ hx exit 3 }" + sep
    elif case["cmd"] == "fail":
        text += "let e = { hx exit 9 }" + sep
    s, rc, panic, files = ending(case)
    text += s
    if case["end"] == "syntax":
        text += BAD_SYNTAX[case["bad"]]
    elif case["end"] == "semantic":
        text += "\n" + BAD_SEMANTIC[case["bad"]] + "\n"
    elif case["end"] == "normal" and case.get("tail"):
        text += "\nfor q in std.range(0, 0, 1) do nil end\n" + case["tail"] + "\n"
    labels = [{"exit range": "exit out of range", "syntax": "static error", "semantic": "static error"}.get(case["end"], case["end"])]
    if len(out) > 8000:
        labels.append("large output")
    if case["stdin"]:
        labels.append("script on stdin")
    d = rt.fresh()
    try:
        for k, v in list(files.items()) + ([] if case["stdin"] else [("t.hsh", text.encode("latin-1"))]):
            with open(os.path.join(d, k), "wb") as f:
                f.write(v)
        o = rt.exec([] if case["stdin"] else ["t.hsh"], d, stdin=text.encode("latin-1") if case["stdin"] else b"")
    finally:
        rt.drop(d)
    name = b"m.hsh" if files else b"<stdin>" if case["stdin"] else b"t.hsh"

    def err(e):
        if static:
            return e != b"" and b"Panic" not in e
        if panic is None:
            return e == b""
        first = e.split(b"\n")
        return e.startswith(b"Panic in ") and name in first[0] and panic.encode() in e and e.endswith(b"\n")
    return verdict(o, rc, b"" if static else out, err, labels, case["end"] != "normal" or len(out) > 1000, {"script": text[-3000:]})


SCRIPTS = {
    "ok": ("std.println(\"ran\")\nstd.print(\"tail\")", b"ran\ntail", 0, None), "panic": ("std.println(\"ran\")\nstd.panic(1)", b"ran\n", 127, "Panic in "),
    "exit": ("std.println(\"ran\")\nstd.exit(42)", b"ran\n", 42, None), "semantic": ("std.println(\"ran\")\nzz = 1\nyy", b"", 2, "undeclared"),
    "syntax": ("std.println(\"ran\")\nlet = 1", b"", 2, "rror"), "effects": ("{ hx out '78' > made }\nstd.println(\"ran\")", b"ran\n", 0, None),
    "both": ("std.println(\"ran\")\nlet = 1\nzz", b"", 2, "rror"), "missing": ("std.import(\"nothing\")", b"", 127, "No such file"),
}


def run_option(case, rt):
    text, out, rc, msg = SCRIPTS[case["script"]]
    flags = list(case["flags"])
    check = "--check" in flags
    if case["special"]:
        flags = flags + [case["special"]]
    labels = ["invalid option" if case["bad"] else "help" if case["special"] else "--check" if check else "printing options" if flags else "no options"]
    d = rt.fresh()
    try:
        with open(os.path.join(d, "t.hsh"), "w") as f:
            f.write(text)
        o = rt.exec(enc(flags + (["-"] if case["stdin"] else ["t.hsh"]) + case["args"]), d, stdin=text.encode() if case["stdin"] else b"")
        made = os.path.exists(os.path.join(d, "made"))
    finally:
        rt.drop(d)
    printing = any(f in flags for f in ("--lex", "--ast", "--program"))
    runs = False
    if case["bad"] and case["special"]:
        # Whichever comes first to the parser: nothing runs either way.
        want = o.rc if o.rc in (0, 1) else 1
        v = verdict(o, want, lambda x: b"ran\n" not in x, lambda e: True, labels, True, {"flags": flags})
    elif case["bad"]:
        v = verdict(o, 1, b"", lambda e: e != b"", labels, True, {"flags": flags})
    elif case["special"]:
        word = b"0." if case["special"] in ("--version", "-V") else b"--check"
        v = verdict(o, 0, lambda x: word in x, b"", labels, True, {"flags": flags})
    else:
        if check:
            rc = rc if rc == 2 else 0
            out = b"" if not printing else None
            msg = msg if rc == 2 else None
        else:
            runs = rc != 2
        tail = out or b""
        if printing and rc == 2:
            outp = lambda x: True  # noqa: E731
        elif printing and out is None:
            outp = lambda x: b"\nran\n" not in x  # noqa: E731
        elif printing:
            outp = lambda x: x.endswith(tail) and (x != tail)  # noqa: E731
        else:
            outp = tail
        v = verdict(o, rc, outp, (lambda e: msg.encode() in e) if msg else b"", labels, bool(flags), {"flags": flags, "script": text})
    if v.ok and made != (runs and case["script"] == "effects"):
        return fail({"why": "the script's effects %s" % ("happened" if made else "did not happen"), "flags": flags, "actual": o.brief()}, labels=labels, nontrivial=True)
    return v


def run_read(case, rt):
    data = "\n".join(case["lines"]) + ("\n" if case["nl"] and case["lines"] else "")
    data = data.encode("latin-1")
    rest = data
    text, out = "", b""
    for p in case["prompts"]:
        if p is None:
            text += "let r = std.read()" if "let r" not in text else "r = std.read()"
        else:
            text += ("let r = std.read(%s)" if "let r" not in text else "r = std.read(%s)") % str_lit(p)
            out += p.encode("latin-1")
        i = rest.find(b"\n") + 1 or len(rest)
        line, rest = rest[:i], rest[i:]
        text += "\nstd.println(std.type(r), std.hex.encode(r))\n"
        out += b"string\t" + line.hex().encode() + b"\n"
        if case["cmd"]:
            # A command that does not read leaves the input alone.
            text += "{ hx out 630a }\n"
            out += b"c\n"
    o = rt.script(text.encode("latin-1"), stdin=data)
    return verdict(o, 0, out, b"", ["read"], len(case["prompts"]) > 1, {"script": text[-2000:], "stdin": data[:500].decode("latin-1")})


def run_unreadable(case, rt):
    d = rt.fresh()
    try:
        p = os.path.join(d, "t.hsh")
        with open(p, "w") as f:
            f.write("std.println(\"ran\")\n")
        os.chmod(p, case["mode"])
        o = rt.exec(enc(["t.hsh"] + case["args"]), d, stdin=b"std.println(\"stdin\")\n")
    finally:
        rt.drop(d)
    return verdict(o, 127, b"", lambda e: e.startswith(b"Panic in t.hsh") and b"Permission denied" in e, ["unreadable"], True, {"mode": oct(case["mode"])})
