"""Generated programs in random layouts, listed by --lex and --ast: the tokens with their positions, and the tree, are those of the generator; and a listing changes nothing of what the script does."""
import re
from decimal import Decimal

from hypothesis import strategies as st

from core.engine import Verdict, fail
from checks.c03 import insert, lay
from lang import words as W
from lang.gen import Gen
from lang.interp import Budget, Interp
from lang.progs import unshare
from lang.syntax import advance
from lang.values import escape_debug

COUNTS = {"quick": 6000, "thorough": 150000}
RULE = ("a case is a generated program in a random layout, with command blocks of words, assignments, redirections and pipelines, and a choice of listings; non-trivial: at least 40 tokens, "
        "and a command block or an operator within an operator; each listed token is one evaluation")
SAMPLE_LABELS = ("lex", "ast", "program", "checked", "run", "command block", "redirection", "pipeline", "nested operators", "comments", "elseif", "literals")
ASSUMPTIONS = ["of the tree's listing, the tokens and the separation of statements are specified, not its indentation", "of the program's listing, the numbering of slots is not specified, but that each stands for one variable"]

RULER = b"-" * 50

# -- command blocks: lists of [separator, kind, data] ------------------------------------------------
BLANK = st.sampled_from([" ", " ", " ", "\t", "\n", "  ", " # c }\n", "\r\n", "\n\n "])
CHARS = st.sampled_from([c for c in W._table("u") if c[0] < "\x7f"])
Q = {s: st.lists(st.sampled_from([c for c in W._table(s) if c[0] < "\x7f"] + [["\xc3\xa9", "\xc3\xa9"], ["\xe2\x82\xac", "\xe2\x82\xac"]]), max_size=5) for s in "sd"}
UNIT = st.one_of(st.lists(CHARS, min_size=1, max_size=5).map(lambda cs: ["t", "u", cs]), Q["s"].map(lambda cs: ["t", "s", cs]), Q["d"].map(lambda cs: ["t", "d", cs]),
                 st.builds(lambda n, b, q: ["v", n, b, q], st.sampled_from(["va", "vb"]), st.booleans(), st.booleans()), st.sampled_from([["x", "*"], ["x", "%"], ["x", "[abc]"], ["x", "[^]"], ["x", "~/"]]))
WORD = st.one_of(st.lists(UNIT, min_size=1, max_size=4), st.text(alphabet="abcxyz", min_size=1, max_size=6).map(lambda s: [["t", "u", [[c, c] for c in s]]]))
FILES = st.sampled_from(["out1", "out2", "./f", "a.txt"]).map(lambda s: [["t", "u", [[c, c] for c in s]]])


@st.composite
def block(draw, check):
    items = []
    kind = draw(st.sampled_from(["{", "${", "&{"]))
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    for i in range(n):
        if i:
            items.append([draw(st.sampled_from(["", " ", "\n"])), "op", ";"])
        if kind == "{" and draw(st.integers(0, 3)) == 0:
            # Most of the built-in commands must not be run.
            items.append([draw(BLANK), "word", W.plain_word(draw(st.sampled_from(BUILTINS)) if check else "cd")])
            for w in draw(st.lists(WORD, max_size=2)):
                items.append([draw(BLANK), "word", w])
            if draw(st.booleans()):
                items.append([draw(st.one_of(BLANK, st.just(""))), "op", "?"])
            continue
        for j in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            if j:
                items.append([draw(BLANK), "op", "|"])
            for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
                items.append([draw(BLANK), "env", [draw(st.sampled_from(["N", "M_1", "path"])), draw(WORD)]])
            for s in ("hx", "exit", "0"):
                items.append([draw(BLANK), "word", W.plain_word(s)])
            for w in draw(st.lists(WORD, max_size=3)):
                items.append([draw(BLANK), "word", w])
            if draw(st.integers(0, 29)) == 0:
                for k in range(draw(st.sampled_from([17, 33, 70]))):
                    items.append([" ", "word", W.plain_word("w%d" % k)])
            reds = draw(st.sampled_from([0, 0, 0, 1, 2]))
            if reds:
                items.append([draw(BLANK), "word", W.plain_word("z")])
            for _ in range(reds):
                k = draw(st.integers(0, 5))
                if k == 5:
                    items += [[draw(BLANK), "op", draw(st.sampled_from(["<", "<<"]))], [draw(st.one_of(BLANK, st.just(""))), "target", draw(FILES)]]
                    continue
                if k in (1, 3):
                    items.append([draw(BLANK), "fd", draw(st.sampled_from([1, 2, 2]))])
                op = ">>" if k in (2, 3) else ">"
                items.append([draw(st.one_of(BLANK, st.just(""))), "op", op])
                if op == ">" and draw(st.integers(0, 2)) == 0:
                    items.append([draw(st.one_of(BLANK, st.just(""))), "fd", draw(st.sampled_from([1, 2]))])
                else:
                    items.append([draw(st.one_of(BLANK, st.just(""))), "target", draw(FILES)])
            if draw(st.integers(0, 4)) == 0:
                items.append([draw(st.one_of(BLANK, st.just(""))), "op", "?"])
    trail = draw(st.integers(0, 5)) == 0
    if trail:
        items.append([" ", "op", ";"])
    return {"open": kind, "items": items, "end": draw(BLANK)}


def word_source(word):
    """As W.source, with expansions."""
    out = ""
    part = []
    ps = []
    for i, p in enumerate(word):
        if p[0] == "x" and p[1] == "~/" and i:
            continue
        if p[0] == "t" and p[1] == "u":
            # One run of unquoted text is one piece; an assignment or a home expansion must not arise.
            body = [c for c in p[2] if c[0] not in ("=", "[", "]")]
            if not ps:
                while body and body[0][0] in ("|", "~"):
                    body = body[1:]
            if not body:
                continue
            p = ["t", "u", body]
        ps.append(p)
    if not ps:
        ps = W.plain_word("w")
    for i, p in enumerate(ps):
        if p[0] == "x":
            out += p[1]
            continue
        nxt = ps[i + 1] if i + 1 < len(ps) else None
        if p[0] == "t":
            body = "".join(c[0] for c in p[2])
            out += body if p[1] == "u" else ("'%s'" if p[1] == "s" else '"%s"') % body
        else:
            c = ""
            if nxt is not None:
                c = nxt[2][0][0][0] if nxt[0] == "t" and nxt[1] == "u" else nxt[1][0] if nxt[0] == "x" else "'"
            brace = p[2] or (not p[3] and W.identchar(c))
            out += '"' * p[3] + ("${%s}" % p[1] if brace else "$" + p[1]) + '"' * p[3]
    return out, ps


def text_debug(cs):
    return escape_debug("".join(c[1] for c in cs).encode("latin-1").decode())


def word_lexed(ps):
    out, i = "", 0
    while i < len(ps):
        p = ps[i]
        if p[0] == "x":
            out += p[1]
        elif p[0] == "v":
            out += '"' * p[3] + "${{%s}}" % p[1] + '"' * p[3]
        else:
            q = {"u": "", "s": "'", "d": '"'}[p[1]]
            out += q + text_debug(p[2]) + q
        i += 1
    return out


def word_tree(ps):
    out, run = "", []
    for p in ps + [None]:
        if p is not None and p[0] == "t":
            run += p[2]
            continue
        out += text_debug(run)
        run = []
        if p is not None:
            out += "${%s}" % p[1] if p[0] == "v" else p[1]
    return '"%s"' % out


def block_source(b):
    """The source of a block, and its tokens: [offset, as listed, for the tree]."""
    src = b["open"]
    toks = [[0, b["open"], None]]
    prev = None
    for n, (sep, kind, data) in enumerate(b["items"]):
        if kind == "word" and prev == "" and not sep:
            sep = " "
        if n == 0 and src[-1:] == "{" and not sep:
            sep = ""
        src += sep
        at = len(src)
        if kind in ("word", "target"):
            t, ps = word_source(data)
            nxt = b["items"][n + 1] if n + 1 < len(b["items"]) else None
            toks.append([at, word_lexed(ps), [kind, ps]])
        elif kind == "env":
            t, ps = word_source(data[1])
            if t == "w":
                t, ps = "", []
            t = data[0] + "=" + t
            toks.append([at, data[0] + "=" + word_lexed(ps), ["env", data[0], ps]])
        elif kind == "fd":
            t = str(data)
            toks.append([at, t, ["fd", data]])
        else:
            t = data
            toks.append([at, t, ["op", data]])
        src += t
    src += b["end"]
    toks.append([len(src), "}", None])
    return src + "}", toks


BUILTINS = ["alias", "cd", "exec", "exec0", "spawn0"]


def block_tree(b, toks, word=lambda prefix, ps: prefix + word_tree(ps), bare=False):
    """The tokens of the block in the tree. In the program, built-in commands are bare."""
    out = [b["open"]]
    items = [t[2] for t in toks[1:-1]]
    if items[-1] == ["op", ";"]:
        items.pop()
    i = 0
    while i < len(items):
        x = items[i]
        if x[0] == "env":
            out.append(word(x[1] + "=", x[2]))
        elif x[0] == "word":
            s = "".join(c[1] for c in x[1][0][2]) if len(x[1]) == 1 and x[1][0][0] == "t" else None
            out.append(s if bare and s in BUILTINS and out[-1] in (b["open"], ";") else word("", x[1]))
        elif x[0] == "fd":
            # The source of the redirection that follows.
            op, target = items[i + 1][1], items[i + 2]
            out.append(word("%d%s" % (x[1], op), target[1]) if target[0] == "target" else "%d%s%d" % (x[1], op, target[1]))
            i += 2
        elif x[1] in (">", ">>", "<", "<<"):
            op, target = "1" * (x[1][0] == ">") + x[1], items[i + 1]
            out.append(word(op, target[1]) if target[0] == "target" else "%s%d" % (op, target[1]))
            i += 1
        else:
            out.append(x[1])
        i += 1
    return out + ["}"]


# -- programs ---------------------------------------------------------------------------------------
@st.composite
def cases(draw):
    g = Gen(draw, {"catch": 4, "trace": 1, "jump": 2}, budget=draw(st.integers(4, 24)), wild=draw(st.sampled_from([0, 2, 6])))
    prog = g.program(2, 8, 3)
    blocks = []
    check = draw(st.integers(0, 3)) > 0
    for j in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        blocks.append(draw(block(check)))
        insert(prog, ["let", "cmd%d" % j, ["cmd", block_source(blocks[-1])[0], [], "noop", j]], draw)
    lits = draw(st.lists(LITERAL, max_size=3))
    if draw(st.integers(0, 11)) == 0:
        # Many of a kind.
        n = draw(st.sampled_from([17, 33, 65, 130]))
        lits.append(draw(st.sampled_from([["arr", [["int", k] for k in range(n)]], ["dict", [["k%d" % k, ["nil"]] for k in range(n)]], ["func", ["p%d" % k for k in range(n)], [["expr", ["nil"]]]], ["func", ["n" * n], [["expr", ["nil"]]]],
                                          ["if", ["false"], [["expr", ["call", ["dot", ["id", "std"], "println"], [["int", k] for k in range(n)]]]], None],
                                          ["if", ["false"], [["expr", chain(n)]], None], ["if", ["false"], [["expr", ["int", k]] for k in range(n)], None]])))
    for j, l in enumerate(lits):
        insert(prog, ["let", "lit%d" % j, l], draw)
    return {"prog": prog, "blocks": blocks, "style": draw(st.integers(0, 4)), "seed": draw(st.integers(0, 2 ** 32)), "parens": draw(st.sampled_from([0, 0, 10, 40])),
            "commas": draw(st.booleans()), "flags": draw(st.sampled_from([["--lex"], ["--ast"], ["--lex", "--ast"], ["--ast", "--lex"], ["--program"], ["--lex", "--ast", "--program"]])),
            "check": check, "pad": draw(st.one_of(*[st.none()] * 12, st.tuples(st.sampled_from([" ", "\n", "# c\n", "\t"]), st.sampled_from([100, 200, 255, 256, 257, 1000, 4096, 10000, 32767, 65535, 65536, 70000])).map(list))),
            "stray": draw(st.sampled_from([None] * 9 + [")", "end", "then", "]", ",", "= 1"])), "garble": draw(st.sampled_from([None] * 15 + ["!", "\\", "^^ `", "''", "~"]))}


def chain(n):
    e = ["int", 0]
    for k in range(n):
        e = ["bin", "+", e, ["int", k]]
    return e


NAME = st.sampled_from(["a", "key", "K2", "_x", "end_"])
ATOM = st.one_of(
    st.integers(0, (1 << 63) - 1).map(lambda n: ["int", n]), st.integers(0, 300).map(lambda n: ["int", n]),
    st.sampled_from(["0.5", "1.0", "1e3", "0.5e3", "12.25", "3e22", "1e300", "1e999", "0.1", "123456789.125", "4.35", "1.7976931348623157e308", "100.0", "00.50", "5E2"]).map(lambda t: ["float", t]),
    st.integers(0, 255).map(lambda n: ["byte", n]),
    st.lists(st.sampled_from(["a", "b", " ", "\"", "'", "\\", "\n", "\t", "\0", "\x1b", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xff", "\xf0\x9f\x98\x80", "{", "$", "#", "%"]), max_size=6).map(lambda cs: ["str", "".join(cs)]),
    st.builds(lambda s, n: ["str", s * n], st.sampled_from(["a", "ab ", "\n", "\xc3\xa9"]), st.sampled_from([20, 32, 63, 64, 80, 127, 128, 255, 256, 1000, 1024, 4096])),
    st.sampled_from([["nil"], ["true"], ["false"]]))
LITERAL = st.recursive(ATOM, lambda s: st.one_of(
    st.lists(s, max_size=3).map(lambda xs: ["arr", xs]),
    st.lists(st.tuples(NAME, s).map(list), max_size=3, unique_by=lambda t: t[0]).map(lambda xs: ["dict", xs]),
    st.tuples(st.sampled_from(["+", "-", "*", "==", "<", "and", "or", "++"]), s, s).map(lambda t: ["if", ["false"], [["expr", ["bin", *t]]], None]),
    s.map(lambda e: ["func", ["p"], [["expr", e]]])), max_leaves=6)


def strategy(tier):
    return cases()


def flat_float(t):
    f = float(t)
    if f == float("inf"):
        return "inf"
    d = format(Decimal(repr(f)), "f")
    return d.rstrip("0").rstrip(".") if "." in d else d


def lit_text(e):
    k = e[0]
    if k == "int":
        return str(e[1])
    if k == "float":
        return flat_float(e[1])
    if k == "byte":
        return "'%s'" % escape_debug(chr(e[1]))
    if k == "str":
        return '"%s"' % escape_debug(e[1].encode("latin-1").decode("utf-8", "replace"))
    return k


class Tree:
    """The tokens of the tree: texts, and SEP between statements."""

    def __init__(self, blocks):
        self.out, self.blocks, self.labels = [], blocks, set()

    def t(self, *texts):
        self.out += texts

    def body(self, stmts):
        for i, s in enumerate(stmts):
            if i:
                self.out.append(SEP)
            self.stmt(s)

    def seq(self, es):
        for i, e in enumerate(es):
            if i:
                self.t(",")
            self.expr(e)

    def func(self, ps, body):
        self.t("function", "(")
        for i, p in enumerate(ps):
            if i:
                self.t(",")
            self.t(p)
        self.t(")")
        self.body(body)
        self.t("end")

    def stmt(self, s):
        k = s[0]
        if k == "let":
            self.t("let", s[1], "=")
            self.expr(s[2] or ["nil"])
        elif k == "fn":
            self.t("let", s[1], "=")
            self.func(s[2], s[3])
        elif k == "set":
            self.expr(s[1])
            self.t("=")
            self.expr(s[2])
        elif k == "return":
            self.t("return")
            self.expr(s[1] or ["nil"])
        elif k == "break":
            self.t("break")
        elif k == "while":
            self.t("while")
            self.expr(s[1])
            self.t("do")
            self.body(s[2])
            self.t("end")
        elif k == "for":
            self.t("for", s[1], "in")
            self.expr(s[2])
            self.t("do")
            self.body(s[3])
            self.t("end")
        else:
            self.expr(s[1])

    def expr(self, e):
        k = e[0]
        if k == "id":
            self.t(e[1])
        elif k == "arr":
            self.t("[")
            self.seq(e[1])
            self.t("]")
        elif k == "dict":
            self.t("@[")
            for i, (n, v) in enumerate(e[1]):
                self.t(*([","] * (i > 0) + [n, ":"]))
                self.expr(v)
            self.t("]")
        elif k == "func":
            self.func(e[1], e[2])
        elif k == "if":
            self.t("if")
            self.expr(e[1])
            self.t("then")
            self.body(e[2])
            if e[3]:
                self.t("else")
                self.body(e[3])
            self.t("end")
        elif k == "idx":
            self.expr(e[1])
            self.t("[")
            self.expr(e[2])
            self.t("]")
        elif k == "dot":
            self.expr(e[1])
            self.t(".", e[2])
        elif k == "call":
            self.expr(e[1])
            self.t("(")
            self.seq(e[2])
            self.t(")")
        elif k == "try":
            self.t("(")
            self.expr(e[1])
            self.t("?", ")")
        elif k == "un":
            self.t("(", e[1])
            self.expr(e[2])
            self.t(")")
            self.nested([e[2]])
        elif k == "bin":
            self.t("(")
            self.expr(e[2])
            self.t(e[1])
            self.expr(e[3])
            self.t(")")
            self.nested(e[2:4])
        elif k == "par":
            self.expr(e[1])
        elif k == "cmd":
            self.block(self.blocks[e[4]])
        else:
            self.t(lit_text(e))

    def block(self, b):
        self.t(*block_tree(b, block_source(b)[1]))

    def nested(self, es):
        if any(x[0] in ("bin", "un") for x in es):
            self.labels.add("nested operators")


class Var:
    """A variable, and the slot of its frame that the listing gives it."""

    def __init__(self, frame, slot=None):
        self.frame, self.slot, self.rivals = frame, slot, []


class Fr:
    """A frame, and the slots that the listing declares for it: slot -> [captured slot or None, is self]."""

    def __init__(self, parent):
        self.parent, self.slots = parent, {}


class Program(Tree):
    """The tokens of the program: names are resolved to variables, to be found consistent in the listing."""

    def __init__(self, blocks):
        Tree.__init__(self, blocks)
        self.fr = Fr(None)
        self.scopes = [(self.fr, {})]
        self.out.append(("frame", self.fr))
        self.declare("std")

    def declare(self, name, slot=None):
        v = Var(self.fr, slot)
        for fr, vs in self.scopes:
            if fr is self.fr:
                for w in vs.values():
                    w.rivals.append(v)
                    v.rivals.append(w)
        self.scopes[-1][1][name] = v
        return v

    def find(self, name):
        return next(vs[name] for fr, vs in reversed(self.scopes) if name in vs)

    def var(self, v):
        self.out.append(("var", v, self.fr))

    def inner(self, stmts, **decl):
        self.scopes.append((self.fr, dict(decl)))
        self.body(stmts)
        self.scopes.pop()

    def func(self, ps, body):
        self.t("function", "(", str(len(ps)), ")")
        self.fr = Fr(self.fr)
        self.out.append(("frame", self.fr))
        self.scopes.append((self.fr, {}))
        for k, n in enumerate(ps):
            self.declare(n, k)
        self.body(body)
        self.scopes.pop()
        self.fr = self.fr.parent
        self.t("end")

    def stmt(self, s):
        k = s[0]
        if k in ("let", "fn"):
            self.var(self.declare(s[1]))
            self.t("=")
            if k == "fn":
                self.func(s[2], s[3])
            else:
                self.expr(s[2] or ["nil"])
        elif k == "set":
            lv = s[1]
            while lv[0] == "par":
                lv = lv[1]
            if lv[0] == "dot":
                self.expr(lv[1])
                self.t("[", lv[2], "]", "=")
            else:
                self.expr(lv)
                self.t("=")
            self.expr(s[2])
        elif k == "while":
            self.t("while")
            self.expr(s[1])
            self.t("do")
            self.inner(s[2])
            self.t("end")
        elif k == "for":
            v = Var(self.fr)
            self.t("for")
            self.var(v)
            self.t("in")
            self.expr(s[2])
            self.t("do")
            for fr, vs in self.scopes:
                if fr is self.fr:
                    for w in vs.values():
                        w.rivals.append(v)
                        v.rivals.append(w)
            self.inner(s[3], **{s[1]: v})
            self.t("end")
        else:
            Tree.stmt(self, s)

    def expr(self, e):
        k = e[0]
        if k == "id":
            self.var(self.find(e[1]))
        elif k == "self":
            self.out.append(("self", self.fr))
        elif k == "if":
            self.t("if")
            self.expr(e[1])
            self.t("then")
            self.inner(e[2])
            if e[3]:
                self.t("else")
                self.inner(e[3])
            self.t("end")
        else:
            Tree.expr(self, e)

    def block(self, b):
        def word(prefix, ps):
            out, run = [prefix + '"'], []
            for p in ps + [None]:
                if p is not None and p[0] == "t":
                    run += p[2]
                    continue
                out.append(text_debug(run))
                run = []
                if p is not None:
                    out += ["${", self.find(p[1]), "}"] if p[0] == "v" else [p[1]]
            return ("word", out + ['"'], self.fr)
        self.out += block_tree(b, block_source(b)[1], word, bare=True)


SLOT = re.compile(r"#(\d+)(?![A-Za-z0-9_])")
DECL = re.compile(r"\s*;?\s*let #(\d+): (?:auto|capture #(\d+))( self)?(?=[\s;]|$)")


def resolve(v, fr, slot):
    """Does a slot, as seen in a frame, stand for a variable? None, or what is wrong."""
    f, k = fr, slot
    while True:
        d = f.slots.get(k)
        if d is None:
            return "slot #%d is none of its function's" % k
        if d[0] is None:
            break
        f, k = f.parent, d[0]
        if f is None:
            return "slot #%d captures nothing" % slot
    if f is not v.frame:
        return "slot #%d stands for a variable of another function" % slot
    if v.slot is None:
        v.slot = k
    if v.slot != k:
        return "slot #%d is not the one of the variable, #%d" % (slot, v.slot)
    if d[1]:
        return "slot #%d is the one of self" % slot
    if any(w.slot == k for w in v.rivals):
        return "slot #%d is also the one of another variable" % slot
    return None


SEP = object()


def match_tree(text, toks):
    """None if the listing has exactly the tokens, else a description."""
    i = 0
    prev = " "
    for n, t in enumerate(toks):
        j = i
        while j < len(text) and text[j] in " \t\n":
            j += 1
        if t is SEP:
            if text[j:j + 1] == ";":
                j += 1
            elif "\n" not in text[i:j]:
                return "statements are not separated at %r" % text[max(0, i - 40):i + 40]
            i, prev = j, " "
            continue
        if isinstance(t, tuple):
            if t[0] == "frame":
                m = DECL.match(text, i)
                while m:
                    t[1].slots[int(m.group(1))] = [int(m.group(2)) if m.group(2) else None, bool(m.group(3))]
                    i = m.end()
                    m = DECL.match(text, i)
                prev = " "
                continue
            for p in t[1] if t[0] == "word" else [t[1]]:
                if isinstance(p, str):
                    if not text.startswith(p, j):
                        return "expected %r at %r (after %r)" % (p, text[j:j + 60], text[max(0, j - 60):j])
                    j += len(p)
                    continue
                m = SLOT.match(text, j)
                if not m:
                    return "expected a slot at %r (after %r)" % (text[j:j + 60], text[max(0, j - 60):j])
                k = int(m.group(1))
                if t[0] == "self":
                    why = None if t[1].slots.get(k) == [None, True] else "slot #%d is not the one of self" % k
                else:
                    why = resolve(p, t[2], k)
                if why:
                    return "%s, at %r (after %r)" % (why, text[j:j + 60], text[max(0, j - 60):j])
                j = m.end()
            i, prev = j, " "
            continue
        if not text.startswith(t, j):
            return "expected %r at %r (after %r)" % (t, text[j:j + 60], text[max(0, j - 60):j])
        if j == i and (prev[-1].isalnum() or prev[-1] == "_") and (t[0].isalnum() or t[0] == "_"):
            return "%r and %r run together" % (prev, t)
        i, prev = j + len(t), t
    rest = text[i:].strip(" \t\n")
    return "more than expected: %r" % rest[:80] if rest else None


def listing(out):
    """A framed listing at the start of the text: its lines, and what follows; None if there is none."""
    if not out.startswith(RULER + b"\n"):
        return None, out
    i = out.find(b"\n" + RULER + b"\n", len(RULER))
    if i < 0:
        return None, out
    return out[len(RULER) + 1:i + 1] if i >= len(RULER) else b"", out[i + len(RULER) + 2:]


def expected_tokens(r, p, blocks):
    out = []
    for i, t in enumerate(p.toks):
        node, text = p.nodes[i], t[0]
        line, col = r.pos[("tok", id(p), i)]
        if isinstance(node, list) and node[0] == "cmd" and text == node[1]:
            for off, shown, _ in block_source(blocks[node[4]])[1]:
                l, c = advance(line, col, text[:off])
                out.append((l, c, shown))
        elif isinstance(node, list) and node[0] in ("int", "float", "byte", "str"):
            out.append((line, col, lit_text(node)))
        else:
            out.append((line, col, text))
    return out


def predictable(prog, r, p):
    """Does the program do the same every time?"""
    try:
        for i, node in enumerate(p.nodes):
            if node is not None:
                r.pos[(node[0], id(node[1])) + node[2:] if isinstance(node, tuple) else id(node)] = r.pos[("tok", id(p), i)]
        return not Interp(prog, r).run().unordered
    except Budget:
        return False


def alike(a, b):
    # The entries of a dict are displayed in no particular order.
    return a == b or b"@[ " in a and sorted(a) == sorted(b)


def show(case):
    prog = unshare(case["prog"])
    return " ".join(case["flags"] + ["--check"] * case["check"]) + "\n" + lay(prog, case, True)[0].text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    prog = unshare(case["prog"])
    r, p = lay(prog, case, True)
    # The words' variables are globals.
    pre = b"let va = \"one\" let vb = [ 1, 2 ]\n"
    down = right = 0
    if case.get("pad"):
        fill = (case["pad"][0] * case["pad"][1]).encode()
        pre = fill + pre
        down, right = fill.count(b"\n"), 0 if b"\n" in fill else len(fill)
    shift = 1 + down
    garble = case.get("garble") or ""
    garbled = []
    if garble:
        # A line before the program, of bytes that form no token.
        pre += garble.encode() + b"\n"
        shift += 1
        garbled = ["Error: line %d, column %d - %s" % (shift, 0, "empty char literal.")] if garble == "''" else [
            "Error: line %d, column %d - unexpected '%s'." % (shift, k, escape_debug(c)) for k, c in enumerate(garble) if c != " "]
    toks = expected_tokens(r, p, case["blocks"])
    flags = case["flags"] + ["--check"] * case["check"]
    tree = Tree(case["blocks"])
    tree.body(prog)
    labels = set(f.strip("-") for f in case["flags"]) | {"checked" if case["check"] else "run"} | tree.labels
    if case["blocks"]:
        labels.add("command block")
        for b in case["blocks"]:
            ops = {x[2] for x in b["items"] if x[1] == "op"}
            labels |= {"redirection"} if ops & {">", ">>", "<", "<<"} else set()
            labels |= {"pipeline"} if "|" in ops else set()
    if case.get("pad"):
        labels.add("far down" if down else "far right")
    if case["style"] == 4:
        labels.add("comments")
    if any(t[2] == "elseif" for t in toks):
        labels.add("elseif")
    nt = len(toks) >= 40 and bool(labels & {"nested operators", "command block"})
    stray = case.get("stray")
    text = pre + r.text
    if stray:
        # Its tokens are listed even if the script is not well formed.
        text += b"\n" + stray.encode()
        l = text.count(b"\n")
        toks = toks + [(l - shift + 1, 2 * k, t) for k, t in enumerate(stray.split())]
    if stray or garble:
        labels.add("ill-formed")
        flags = [f for f in flags if f not in ("--ast", "--program")]
    o = rt.script(text, flags=flags)
    evals = len(toks) if "lex" in labels else 1

    def bad(why):
        return fail({"why": why, "script": text.decode("utf-8", "backslashreplace"), "flags": flags, "actual": o.brief()}, labels=sorted(labels), nontrivial=nt, hang=o.hang, n=evals)
    if o.hang:
        return bad("the script hangs")
    rest = o.out
    if "--lex" in flags:
        part, rest = listing(rest)
        if part is None:
            return bad("no framed list of tokens")
        lines = part.decode("utf-8", "replace").split("\n")[:-1]
        want = ["t.hsh (line %d, column %d):\t%s" % (l + down, c + right, t) for l, c, t in PRE] + garbled + ["t.hsh (line %d, column %d):\t%s" % (l + shift, c, t) for l, c, t in toks]
        for k in range(max(len(lines), len(want))):
            x = lines[k] if k < len(lines) else None
            y = want[k] if k < len(want) else None
            if x != y:
                return bad("token %d: expected %r, listed %r" % (k, y, x))
    if "--ast" in flags:
        part, rest = listing(rest)
        if part is None:
            return bad("no framed tree")
        head, _, body = part.decode("utf-8", "replace").partition("\n")
        if not head.startswith("AST for ") or not head.endswith("t.hsh"):
            return bad("the heading of the tree is %r" % head)
        why = match_tree(body, PRE_TREE + tree.out)
        if why:
            return bad("the tree: " + why)
    if "--program" in flags:
        part, rest = listing(rest)
        if part is None:
            return bad("no framed program")
        head, _, body = part.decode("utf-8", "replace").partition("\n")
        if not head.startswith("Program for ") or not head.endswith("t.hsh"):
            return bad("the heading of the program is %r" % head)
        ptree = Program(case["blocks"])
        ptree.body(PRE_NODES + prog)
        why = match_tree(body, ptree.out)
        if why:
            return bad("the program: " + why)
    if stray or garble:
        if rest or o.rc != 2 or not o.err:
            return bad("an ill-formed script: exit status %r, then output %r" % (o.rc, rest[:80]))
    elif case["check"]:
        if rest or o.err or o.rc != 0:
            return bad("with --check: exit status %r, then output %r" % (o.rc, rest[:80]))
    elif predictable(prog, r, p):
        q = rt.script(text)
        if q.hang:
            return bad("the script hangs without the listing")
        if o.rc != q.rc or not alike(rest, q.out) or not alike(o.err, q.err):
            return bad("the script does otherwise without the listing: %r" % (q.brief(),))
    return Verdict(labels=sorted(labels), nontrivial=nt, n=evals)


PRE = [(1, c, t) for c, t in [(0, "let"), (4, "va"), (7, "="), (9, '"one"'), (15, "let"), (19, "vb"), (22, "="), (24, "["), (26, "1"), (27, ","), (29, "2"), (31, "]")]]
PRE_TREE = ["let", "va", "=", '"one"', SEP, "let", "vb", "=", "[", "1", ",", "2", "]", SEP]
PRE_NODES = [["let", "va", ["str", "one"]], ["let", "vb", ["arr", [["int", 1], ["int", 2]]]]]
