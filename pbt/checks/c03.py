"""Random layouts (whitespace, newlines, comments, trailing commas, redundant parentheses) of generated programs; the reference interpreter knows the position of every token."""
import re

from hypothesis import strategies as st

from lang import words as W
from lang.gen import Gen
from lang.progs import judge, unshare
from lang.syntax import Printer, layout, needs_space, safe_start

WIDE = ["late_panic", "far_panic"]
COUNTS = {"quick": 9000, "thorough": 250000}
RULE = ("a case is a generated program together with one random layout of its tokens; non-trivial: the layout has at "
        "least one comment or newline inside of a statement, and the program at least 30 tokens")
SAMPLE_LABELS = ("comments", "panics", "caught", "parens", "trailing comma", "dense")

COMMENTS = ["#\n", "# c\n", "#end\n", "# \"quote\n", "# 'q { } $ & ( [\n", "##\t#\n", "#\\\n", "# \xc3\xa9\xff\0 if then\n"]
BLANKS = [" ", "\t", "\n", "\r\n", "  ", "\n\n", "\x0c", " \n\t", "\r"]


@st.composite
def quiet(draw):
    """A block of commands without any effect, of words in all styles."""
    out = draw(st.sampled_from(["{", "${", "&{"]))
    for i in range(draw(st.integers(1, 2))):
        out += (";" if i else "") + draw(CMD_SEP)
        if draw(st.booleans()):
            out += "N=" + W.source(draw(W.words([], 2)))[0].lstrip("|") + draw(CMD_SEP)
        out += "hx exit 0"
        for w in draw(st.lists(st.one_of(W.words([]), ODD), max_size=4)):
            out += draw(CMD_SEP) + W.source(w)[0]
    return out + draw(CMD_SEP) + "}"


ODD = st.sampled_from(["~a", "~", "~~/", "2", "2x", "1a", "1", "?x"[1:], "a=b", "=", "$", "-", "&"]).filter(lambda s: s not in ("$", "=")).map(W.plain_word)
CMD_SEP = st.sampled_from([" ", " ", "\t", "\n", "  ", " # c }\n", "\r\n"])


def insert(prog, s, draw):
    """Puts a statement somewhere: at the top, or before the statements of some function or block."""
    places = [prog]

    def go(x):
        if isinstance(x, list):
            if x[:1] in (["func"], ["while"]) and isinstance(x[2], list):
                places.append(x[2])
            elif x[:1] == ["fn"]:
                places.append(x[3])
            elif x[:1] == ["if"]:
                places.append(x[2])
            for y in x:
                go(y)
    go(prog)
    p = places[draw(st.integers(0, len(places) - 1))] if draw(st.booleans()) else prog
    k = draw(st.integers(2 if p is prog else 0, len(p) if p is prog else max(0, len(p) - 1)))
    if k == len(p) or p[k][0] != "expr" or safe_start(p[k][1]):
        p.insert(k, s)


@st.composite
def cases(draw):
    g = Gen(draw, {"catch": 4, "trace": 1, "jump": 2}, budget=draw(st.integers(4, 24)), wild=draw(st.sampled_from([0, 2, 6])))
    prog = g.program(2, 8, 3)
    for j in range(draw(st.sampled_from([0, 0, 0, 1, 3]))):
        insert(prog, ["let", "cmd%d" % j, ["cmd", draw(quiet()), [], "noop"]], draw)
    style = draw(st.integers(0, 4))
    return {"prog": prog, "style": style, "seed": draw(st.integers(0, 2 ** 32)),
            "parens": draw(st.sampled_from([0, 0, 10, 40])), "commas": draw(st.booleans())}


def strategy(tier):
    return cases()


class Rng:
    def __init__(self, seed):
        self.x = seed * 2654435761 % (1 << 64) | 1

    def __call__(self, n):
        self.x ^= (self.x << 13) % (1 << 64)
        self.x ^= self.x >> 7
        self.x ^= (self.x << 17) % (1 << 64)
        return (self.x >> 16) % n


FRAGMENTS = ["\r", "\\", "\"", "'", "{", "}", "#", "end", "std.println(1)", "let q = 1", "\t", "\x0c", "\x0b", "\0", "\x1a", "\xc2\x85",
             "\xe2\x80\xa8", "return", "break", "$", "${", "@[", "*/", "*", "--", "!", "end end", "?", "%", "~", ";", "x"]


def comment(rng):
    if rng(2):
        return COMMENTS[rng(len(COMMENTS))]
    out = "#"
    for _ in range(rng(6)):
        out += FRAGMENTS[rng(len(FRAGMENTS))] if rng(3) else chr([rng(256), rng(128)][rng(2)])
        if rng(2):
            out += " "
    return out.replace("\n", "") + "\n"


def lay(prog, case, mark=False):
    rng = Rng(case["seed"])
    extra = None
    if case["parens"]:
        # A call target and a statement's first token must not become "(".
        extra = None
    p = Loose(rng, case["parens"], case["commas"])
    for s in prog:
        p.stmt(s)
    if mark:
        # The position of every token is wanted.
        p.nodes = [t[1] for t in p.toks]
        p.toks = [(t[0], ("tok", p, i)) + t[2:] for i, t in enumerate(p.toks)]
    style = case["style"]

    def sep(i, prev, text, nl):
        glue = i > 0 and not needs_space(prev, text)
        if style == 0:                  # dense
            return "" if glue or i == 0 else " "
        if style == 1:                  # one line
            return " "
        if style == 2:                  # a line per token
            return "\n"
        out = []
        k = rng(4) if glue or i == 0 else 1 + rng(3)
        for _ in range(k):
            if style == 4 and rng(3) == 0:
                out.append(" " + comment(rng))
            else:
                out.append(BLANKS[rng(len(BLANKS))])
        return "".join(out)
    return layout(p.toks, sep), p


class Loose(Printer):
    """Adds redundant parentheses and trailing commas."""

    def __init__(self, rng, parens, commas):
        super().__init__()
        self.rng, self.parens, self.commas = rng, parens, commas
        self.n_parens = self.n_commas = 0
        self.inside = 0

    def t(self, text, node=None, nl=False):
        if text[:1] == '"' and len(text) > 2 and self.rng(2):
            # Line feeds, tabs and single quotes may be written as they are, or escaped.
            text = re.sub(r"(?s)\\.|.", self.respell, text)
        super().t(text, node, nl)

    def respell(self, m):
        c = m.group()
        other = {"\\n": "\n", "\\t": "\t", "'": "\\'"}.get(c)
        return other if other and self.rng(2) else c

    def stmt(self, s):
        # The first expression of an expression or assignment statement must not start with "(".
        if s[0] in ("expr", "set"):
            self.first = True
        super().stmt(s)

    first = False

    def expr(self, e, min_prec=0):
        first, self.first = self.first, False
        if first or not self.parens or self.rng(100) >= self.parens:
            if first:
                self.lead = len(self.toks)
            return self.inner(e, min_prec, first)
        if e[0] == "cmd":
            return super().expr(e, min_prec)
        for _ in range(1 + self.rng(2)):
            pass
        self.n_parens += 1
        self.t("(")
        super().expr(e, 0)
        self.t(")")

    def inner(self, e, min_prec, first):
        if not first:
            return super().expr(e, min_prec)
        # Keep the leading token: nothing may be parenthesised on the left spine.
        old, self.parens = self.parens, 0
        if e[0] == "call" and e[1][0] in ("id", "dot"):
            # Arguments of a plain call statement may.
            self.operand(e[1])
            self.parens = old
            self.t("(", e)
            self.seq(e[2])
            self.t(")")
            return None
        r = super().expr(e, min_prec)
        self.parens = old
        return r

    def operand(self, e):
        if e[0] in ("int", "float"):
            self.t("(")
            self._expr(e)
            self.t(")")
        else:
            self.expr(e, 9)

    def seq(self, es):
        super().seq(es)
        if es and self.commas and self.rng(2):
            self.n_commas += 1
            self.t(",")

    def params(self, ps, node):
        self.t("(")
        for i, p in enumerate(ps):
            if i:
                self.t(",")
            self.t(p, ("param", node, i))
        if ps and self.commas and self.rng(2):
            self.n_commas += 1
            self.t(",")
        self.t(")")


def show(case):
    return lay(unshare(case["prog"]), case)[0].text.decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    prog = unshare(case["prog"])
    r, p = lay(prog, case)
    labels = [["dense", "one line", "a line per token", "blanks", "comments"][case["style"]]]
    if p.n_parens:
        labels.append("parens")
    if p.n_commas:
        labels.append("trailing comma")
    return judge(prog, rt, labels, rendered=r, nontrivial=lambda it: case["style"] != 1 and len(p.toks) >= 30)
