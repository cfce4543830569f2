"""The front end is total: a verdict on any input; what it rejects never runs; valid programs are accepted."""
import re

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.gen import Gen
from lang.interp import Resolver
from lang.parser import Bad, Unsupported, parse
from lang.syntax import Printer, layout

COUNTS = {"quick": 16000, "thorough": 300000}
RULE = ("a case is a script text: random bytes, a soup of tokens, a generated valid program, or one with tokens or bytes "
        "deleted, inserted, swapped or duplicated; non-trivial: more than three tokens and not plain random bytes; each "
        "run of the front end on it is one evaluation")
SAMPLE_LABELS = ("soup", "bytes", "valid", "mutated", "deleted one", "rejected", "accepted", "long", "faults")
ASSUMPTIONS = ["nesting depth below 60 (deeper nesting is a listed known finding)"]

TOKENS = ("let if then else elseif end for in do while function return break self nil true false not and or x y f std "
          "std.println ( ) [ ] @[ { ${ &{ } , : . ? ; = == != < <= > >= + - * / % ++ ' \" # \\ $ $x | & ! ~ ^ ` @ 1 0 2.5 1e5 99999999999999999999 'a' "
          "\"s\" \"\\n\" \"\\q\" '' \n \t >> << 2> 1 2 * % ~/ x=1 alias cd exec exec0 spawn0 \x00 \xff \xc3\xa9 2>1 >a <a").split(" ")
FLAGS = [["--check"], ["--lex", "--check"], ["--ast", "--check"], ["--program", "--check"], ["--check", "--lex", "--ast", "--program"]]

CMD_BLOCKS = ["{ hx args a }", "${ hx args \"a\" 'b' | hx cat }", "&{ hx args }", "{ hx a > out; hx b 2>1? }",
              "{ X=1 hx $zz ${zz} *.c ~/a }", "${ hx << \"text\" < f; hx >> g }", "{ hx \"a $zz b\" # c\n hx d\n }",
              "{ cd a }", "{ exec hx }"]

TRACE = "std.println(\"RAN\")\n{ hx log ran 52 }\n"


def toks_of(prog):
    p = Printer()
    for s in prog:
        p.stmt(s)
    return p.toks


COUNTED = {"(", ")", "[", "]", "@[", "if", "elseif", "then", "end", "do", "in", "function"}


@st.composite
def valid_tokens(draw):
    """Token texts of a valid program (some with command blocks)."""
    g = Gen(draw, {"trace": 0, "jump": 2}, budget=draw(st.integers(3, 16)), wild=2)
    prog = g.program(1, 5, 2)[2:]
    prog = [["let", "zz", ["nil"]], ["let", "tr", ["nil"]], ["let", "id", ["nil"]]] + prog
    for _ in range(draw(st.integers(0, 2))):
        prog.append(["let", "c%d" % draw(st.integers(0, 10 ** 6)) + "q%d" % len(prog), ["cmd", draw(st.sampled_from(CMD_BLOCKS))]])
    return prog


def text(toks):
    return layout([(t, None, nl, d) for t, _, nl, d in toks]).text


# Lines that are wrong in one place, and where.
# Of the text (at most twenty of these are shown), and of the program's meaning (likewise, after those).
TEXT_FAULTS = {
    "@ 1": [(0, "unexpected '@'")], "\"\\q\"": [(1, "invalid escape sequence '\\q'")], "99999999999999999999": [(0, "")], "!": [(0, "unexpected '!'")],
    "nil = )": [(6, "unexpected ')'")], ")": [(0, "unexpected ')'")], "1 +* 2": [(3, "unexpected '*'")],
    "'\\z'": [(1, "invalid escape sequence '\\z'")], "\"a\\x\\yb\\n\"": [(2, "invalid escape sequence '\\x'"), (4, "invalid escape sequence '\\y'")],
    "{ hx \\d e }": [(5, "invalid escape sequence '\\d'")], "{ hx a\\vb }": [(6, "invalid escape sequence '\\v'")],
    "{ hx \\z\\y }": [(5, "invalid escape sequence '\\z'"), (7, "invalid escape sequence '\\y'")],
    "{ hx \"\\q\" '\\r' \\n }": [(6, "invalid escape sequence '\\q'"), (11, "invalid escape sequence '\\r'")],
    "{ hx > a\\e; hx a\\fb ? }": [(8, "invalid escape sequence '\\e'"), (16, "invalid escape sequence '\\f'")],
}
MEANING_FAULTS = {
    "und": [(0, "undeclared variable 'und'")], "if und2 then und3 end": [(3, "undeclared variable 'und2'"), (13, "undeclared variable 'und3'")],
    "break": [(0, "break statement outside loop")], "self": [(0, "self keyword outside function")], "@[ a: 1, a: 2 ]": [(9, "duplicate key 'a'")],
    "1 = 2": [(2, "invalid assignment")], "{ cd a | hx }": [(2, "use of built-in command in async context")], "{ hx $nov }": [(5, "undeclared variable 'nov'")],
    "{ hx \"a ${nov}b\" c }": [(8, "undeclared variable 'nov'")], "function (p) p = q end": [(17, "undeclared variable 'q'")],
}
FINE = ["nil", "2 # )", "", "{ hx '$und' \\$und \"\\$und\" }", "function () self end", "while nil do break end", "@[ a: 1, b: @[ a: 2 ] ]"]
FAULTS = sorted(TEXT_FAULTS) + sorted(MEANING_FAULTS) + FINE
PADS = ["#comment\n", "\n", "  ", "if nil then 1 end\n", "nil\n", "{ hx a }\n", "# '\"{ \n"]


@st.composite
def cases(draw, pads=True):
    kind = draw(st.sampled_from(["bytes", "soup", "soup", "valid", "mutated", "mutated", "deleted one", "bytemut"]))
    flags = draw(st.sampled_from(FLAGS + [["--check"]] * 6))
    rare = draw(st.integers(0, 99))
    if rare == 50 and pads:
        # Far down a long script.
        case = draw(cases(False))
        n = draw(st.sampled_from([100, 255, 256, 257, 1000, 1023, 1024, 1025, 4000]))
        return dict(case, flags=["--check"], pad=[draw(st.sampled_from(PADS)), n * draw(st.sampled_from([1, 1, 8]))])
    if 51 <= rare <= 54:
        n = draw(st.one_of(st.integers(1, 60), st.sampled_from([19, 20, 21, 22, 40, 41, 300])))
        few = draw(st.lists(st.sampled_from(FAULTS), min_size=1, max_size=6))
        return {"kind": "faults", "flags": ["--check"], "text": "\n".join(few[i * i % len(few)] for i in range(n)) + "\n"}
    if kind == "bytes":
        b = draw(st.binary(max_size=60))
        return {"kind": kind, "flags": flags, "text": b.decode("latin-1")}
    if kind == "soup":
        ts = draw(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=40))
        seps = draw(st.lists(st.sampled_from([" ", " ", "\n", ""]), min_size=len(ts), max_size=len(ts)))
        return {"kind": kind, "flags": flags, "text": "".join(a + b for a, b in zip(ts, seps))}
    prog = draw(valid_tokens())
    toks = toks_of(prog)
    if kind == "valid":
        return {"kind": kind, "flags": flags, "text": text(toks).decode("latin-1")}
    if kind == "deleted one":
        idx = [i for i, t in enumerate(toks) if t[0] in COUNTED]
        if idx:
            i = idx[draw(st.integers(0, len(idx) - 1))]
            # Keep the neighbours apart.
            toks = toks[:i] + [("", None, False, 0)] + toks[i + 1:]
            return {"kind": kind, "flags": flags, "text": spaced(toks)}
        kind = "mutated"
    if kind == "mutated":
        ts = list(toks)
        for _ in range(draw(st.integers(1, 4))):
            if not ts:
                break
            i = draw(st.integers(0, len(ts) - 1))
            op = draw(st.integers(0, 4))
            if op == 0:
                del ts[i]
            elif op == 1:
                ts.insert(i, (draw(st.sampled_from(TOKENS)), None, False, 0))
            elif op == 2:
                ts[i] = (draw(st.sampled_from(TOKENS)), None, False, 0)
            elif op == 3:
                j = draw(st.integers(0, len(ts) - 1))
                ts[i], ts[j] = ts[j], ts[i]
            else:
                j = draw(st.integers(i, min(len(ts), i + 8)))
                ts[i:i] = ts[i:j]
        return {"kind": kind, "flags": flags, "text": spaced(ts)}
    b = bytearray(text(toks))
    for _ in range(draw(st.integers(1, 4))):
        if not b:
            break
        i = draw(st.integers(0, len(b) - 1))
        op = draw(st.integers(0, 3))
        c = draw(st.one_of(st.sampled_from(list(b"'\"\\{}()[]$#|&;\n\0@?=<>")), st.integers(0, 255)))
        if op == 0:
            del b[i]
        elif op == 1:
            b.insert(i, c)
        elif op == 2:
            b[i] = c
        else:
            del b[i:]
    return {"kind": "mutated", "flags": flags, "text": bytes(b).decode("latin-1")}


def spaced(toks):
    return "".join(("\n" if nl else " ") + t for t, _, nl, _ in toks)


def recognize(body):
    """Whether the text is a valid program by an independent recognizer; None if it has command blocks."""
    try:
        # In place of the traces: an expression statement of the same kind.
        prog = parse(b"std.println(1)\nnil\n" + body)
        return not Resolver(prog).errors
    except Bad:
        return False
    except (Unsupported, RecursionError):
        return None


def diagnostics(body, o):
    """Every fault is reported once, at its place, or counted if there are too many."""
    body = body.decode("latin-1").split("\n")
    lines = o.err.decode("utf-8", "replace").splitlines()
    total = 0
    for table in (TEXT_FAULTS, MEANING_FAULTS):
        places = [(i + 3, c, m) for i, x in enumerate(body) for c, m in table.get(x, [])]
        total += len(places)
        n = min(len(places), 20) + (len(places) > 20)
        mine, lines = lines[:n], lines[n:]
        if len(mine) != n:
            return "missing diagnostics"
        for (i, c, m), x in zip(places[:20], mine):
            if "(line %d, column %d)" % (i, c) not in x or m not in x:
                return "expected a diagnostic for line %d, column %d (%s): %r" % (i, c, m, x)
        if len(places) > 20 and re.findall(r"\d+", mine[20]) != [str(len(places) - 20)]:
            return "%d more faults: %r" % (len(places) - 20, mine[20])
    if lines:
        return "more diagnostics: %r" % lines
    if (o.rc == 2) != bool(total):
        return "the script has %d faults" % total
    return None


def strategy(tier):
    return cases()


def show(case):
    return " ".join(case["flags"]) + "\n" + case["text"].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    if "repeat" in case:
        case = dict(case, text=case["repeat"][0] * case["repeat"][1])
    kind, body = case["kind"], case["text"].encode("latin-1")
    labels = [kind]
    if "pad" in case:
        labels.append("long")
        body = case["pad"][0].encode() * case["pad"][1] + body
    s = TRACE.encode() + body
    d = rt.fresh()
    try:
        o = rt.script(s, flags=case["flags"], cwd=d)
        import os
        ran = os.path.exists(os.path.join(d, "ran"))
        v = {"actual": o.brief(), "flags": case["flags"]}
        if o.hang:
            return fail(dict(v, why="the front end hangs"), labels=labels, hang=True)
        if o.rc not in (0, 2):
            return fail(dict(v, why="no verdict: status %r" % o.rc), labels=labels)
        if ran or (case["flags"] == ["--check"] and o.out):
            return fail(dict(v, why="--check executed the script"), labels=labels)
        if (o.rc == 2) != (o.err != b""):
            return fail(dict(v, why="diagnostics do not go with the status"), labels=labels)
        labels.append("accepted" if o.rc == 0 else "rejected")
        if kind == "valid" and o.rc != 0:
            return fail(dict(v, why="a valid program is rejected"), labels=labels)
        if kind == "deleted one" and o.rc != 2:
            return fail(dict(v, why="an unbalanced program is accepted"), labels=labels)
        if kind == "faults" and "pad" not in case:
            why = diagnostics(body, o)
            if why:
                return fail(dict(v, why=why), labels=labels)
        want = recognize(body)
        if want is not None:
            labels.append("judged by the recognizer")
            if (o.rc == 0) != want:
                return fail(dict(v, why="the grammar and static rules say this is %s" % (
                    "valid" if want else "invalid")), labels=labels)
        n = 1
        if o.rc == 2:
            # Rejected: running it executes nothing, and is rejected alike.
            n = 2
            p = rt.script(s, cwd=d)
            if p.hang or p.rc != 2 or p.out != b"" or os.path.exists(os.path.join(d, "ran")):
                return fail({"why": "a rejected script is executed, or not rejected when run", "actual": p.brief()},
                            labels=labels, hang=p.hang)
            if case["flags"] == ["--check"] and p.err != o.err:
                return fail({"why": "--check and a run report different errors", "check": o.brief(),
                             "run": p.brief()}, labels=labels)
        return Verdict(labels=labels, nontrivial=kind != "bytes" and len(body) > 6, n=n)
    finally:
        rt.drop(d)


PINNED = [
    {"kind": "soup", "flags": ["--check"], "text": "{ hx args [a] {b }"},
    {"kind": "soup", "flags": ["--check"], "text": "{ a [ }"},
    {"kind": "soup", "flags": ["--check"], "text": ""},
    {"kind": "soup", "flags": ["--check"], "text": "{"},
    {"kind": "soup", "flags": ["--check"], "text": "${ a | }"},
    # Once: the number of suppressed errors was wrong.
    {"kind": "faults", "flags": ["--check"], "text": ")\n" * 27},
    # Once: an invalid escape in an argument was reported again with every further byte, up to the end of the script.
    {"kind": "faults", "flags": ["--check"], "text": "{ hx a\\vb }\nbreak\n{ hx \\z\\y }\nnil\n"},
    {"kind": "mutated", "flags": ["--check"], "text": "let x = )\n", "pad": ["# comment\n", 20000]},
    {"kind": "valid", "flags": ["--check"], "text": "let x = 1\n", "pad": ["# comment\n", 20000]},
]
