"""Abstract syntax of Hush programs as plain lists (JSON), and a printer that yields tokens with the
source position of every node.

Expressions:
  ["nil"] ["true"] ["false"] ["self"] ["int", n>=0] ["float", text] ["byte", n] ["str", latin1]
  ["id", name] ["arr", [e...]] ["dict", [[name, e]...]] ["func", [param...], [stmt...]]
  ["if", cond, [stmt...], [stmt...] | None] ["idx", obj, e] ["dot", obj, name]
  ["call", f, [e...]] ["un", "-"|"not", e] ["bin", op, l, r] ["try", e] ["cmd", text]
  ["par", e]                              explicit parentheses (no meaning)
Statements:
  ["let", name, e|None] ["set", lvalue, e] ["return", e|None] ["break"]
  ["while", e, [stmt...]] ["for", name, e, [stmt...]] ["expr", e] ["fn", name, [param...], [stmt...]]
"""

PREC = {
    "or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "++": 5,
    "+": 6, "-": 6, "*": 7, "/": 7, "%": 7,
}
UNARY, POSTFIX, ATOM = 8, 9, 10

KEYWORDS = set("let if then else elseif end for in do while function return break self nil true false "
               "not and or".split())


def prec(e):
    k = e[0]
    if k == "bin":
        return PREC[e[1]]
    if k == "un":
        return UNARY
    if k in ("idx", "dot", "call", "try"):
        return POSTFIX
    if k in ("if", "func", "cmd"):
        return 0        # parenthesised wherever it is an operand
    if k == "par":
        return ATOM
    return ATOM


def str_lit(s):
    """Source text of a string literal, for a latin-1 text standing for bytes."""
    out = ['"']
    for c in s:
        if c == '"':
            out.append('\\"')
        elif c == "\\":
            out.append("\\\\")
        elif c == "\n":
            out.append("\\n")
        elif c == "\t":
            out.append("\\t")
        elif c == "\0":
            out.append("\\0")
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def byte_lit(n):
    c = chr(n)
    return "'%s'" % {"'": "\\'", "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\0": "\\0"}.get(c, c)


class Printer:
    """Collects tokens: [text, node or None, break-before]."""

    def __init__(self, extra_parens=None):
        self.toks = []
        self.depth = 0
        self.extra = extra_parens      # callable(node) -> bool, or None

    def t(self, text, node=None, nl=False):
        self.toks.append((text, node, nl, self.depth))

    # -- expressions ----------------------------------------------------------------------------
    def expr(self, e, min_prec=0):
        need = prec(e) < min_prec
        if not need and self.extra is not None and self.extra(e):
            need = True
        if need:
            self.t("(")
            self._expr(e)
            self.t(")")
        else:
            self._expr(e)

    def _expr(self, e):
        k = e[0]
        if k in ("nil", "true", "false", "self"):
            self.t(k, e)
        elif k == "int":
            self.t(str(e[1]), e)
        elif k == "float":
            self.t(e[1], e)
        elif k == "byte":
            self.t(byte_lit(e[1]), e)
        elif k == "str":
            self.t(str_lit(e[1]), e)
        elif k == "id":
            self.t(e[1], e)
        elif k == "arr":
            self.t("[", e)
            self.seq(e[1])
            self.t("]")
        elif k == "dict":
            self.t("@[", e)
            for i, (name, v) in enumerate(e[1]):
                if i:
                    self.t(",")
                self.t(name, ("key", e, i))
                self.t(":")
                self.expr(v)
            self.t("]")
        elif k == "func":
            self.t("function", e)
            self.params(e[1], e)
            self.block(e[2])
            self.t("end", nl=True)
        elif k == "if":
            self.t("if", e)
            self.expr(e[1])
            self.t("then")
            self.block(e[2])
            otherwise = e[3]
            # An else block holding exactly one if prints as elseif when marked so.
            while (otherwise is not None and len(e) > 4 and e[4] == "elseif" and len(otherwise) == 1
                   and otherwise[0][0] == "expr" and otherwise[0][1][0] == "if"):
                e = otherwise[0][1]
                self.t("elseif", e, nl=True)
                self.expr(e[1])
                self.t("then")
                self.block(e[2])
                otherwise = e[3]
            if otherwise is not None:
                self.t("else", nl=True)
                self.block(otherwise)
            self.t("end", nl=True)
        elif k == "idx":
            self.operand(e[1])
            self.t("[", e)
            self.expr(e[2])
            self.t("]")
        elif k == "dot":
            self.operand(e[1])
            self.t(".", e)
            self.t(e[2], ("f", e))
        elif k == "call":
            self.operand(e[1])
            self.t("(", e)
            self.seq(e[2])
            self.t(")")
        elif k == "try":
            self.operand(e[1])
            self.t("?", e)
        elif k == "un":
            self.t(e[1], e)
            self.expr(e[2], UNARY)
        elif k == "bin":
            p = PREC[e[1]]
            self.expr(e[2], p)
            self.t(e[1], e)
            self.expr(e[3], p + 1)
        elif k == "par":
            self.t("(")
            self._expr(e[1])
            self.t(")")
        elif k == "cmd":
            self.t(e[1], e)
        else:
            raise ValueError(e)

    def operand(self, e):
        """Operand of a postfix operator."""
        if e[0] in ("int", "float"):
            self.t("(")
            self._expr(e)
            self.t(")")
        else:
            self.expr(e, POSTFIX)

    def seq(self, es):
        for i, x in enumerate(es):
            if i:
                self.t(",")
            self.expr(x)

    def params(self, ps, node):
        self.t("(")
        for i, p in enumerate(ps):
            if i:
                self.t(",")
            self.t(p, ("param", node, i))
        self.t(")")

    # -- statements -----------------------------------------------------------------------------
    def block(self, stmts):
        self.depth += 1
        for s in stmts:
            self.stmt(s)
        self.depth -= 1

    def stmt(self, s):
        k = s[0]
        first = len(self.toks)
        if k == "let":
            self.t("let")
            self.t(s[1], ("name", s))
            if s[2] is not None:
                self.t("=")
                self.expr(s[2])
        elif k == "set":
            self.expr(s[1])
            self.t("=", ("assign", s))
            self.expr(s[2])
        elif k == "return":
            self.t("return", s)
            if s[1] is not None:
                self.expr(s[1])
        elif k == "break":
            self.t("break", s)
        elif k == "while":
            self.t("while")
            self.expr(s[1])
            self.t("do")
            self.block(s[2])
            self.t("end", nl=True)
        elif k == "for":
            self.t("for")
            self.t(s[1], ("name", s))
            self.t("in")
            self.expr(s[2])
            self.t("do")
            self.block(s[3])
            self.t("end", nl=True)
        elif k == "expr":
            self.expr(s[1])
        elif k == "fn":
            self.t("function", s)
            self.t(s[1], ("name", s))
            self.params(s[2], s)
            self.block(s[3])
            self.t("end", nl=True)
        else:
            raise ValueError(s)
        text, node, _, depth = self.toks[first]
        self.toks[first] = (text, node, True, depth)


def safe_start(e):
    """Can an expression statement starting like this follow another statement?"""
    p = Printer()
    p.expr(e)
    t = p.toks[0][0]
    return t not in ("(", "[", "-", "?", ".")


def wordish(c):
    return c.isalnum() or c == "_" or c >= "\x80"


class Rendered:
    def __init__(self, text, pos):
        self.text = text        # bytes
        self.pos = pos          # id(node) -> (line, column); ("f", id(node)) for dot fields


def needs_space(a, b):
    """Must tokens a and b be separated?"""
    if not a or not b:
        return False
    x, y = a[-1], b[0]
    if wordish(x) and wordish(y):
        return True
    if wordish(x) and y == "." or x == "." and wordish(y):
        return a[0].isdigit() or b[0].isdigit()
    if x in "=!<>" and y == "=":
        return True
    if x == "+" and y == "+":
        return True
    if x == "@" or y == "@" and wordish(x):
        return x == "@"
    if x in "&$" and y == "{":
        return True
    return False


def render(stmts, sep=None, extra_parens=None):
    """Prints a program. sep: callable(i, prev, next, newline?) -> separator text, or None for the plain
    layout. Returns the text and the positions."""
    p = Printer(extra_parens)
    for s in stmts:
        p.stmt(s)
    return layout(p.toks, sep)


def layout(toks, sep=None):
    out = []
    pos = {}
    line, col = 1, 0
    prev = ""
    for i, (text, node, nl, depth) in enumerate(toks):
        if sep is not None:
            s = sep(i, prev, text, nl)
        elif i == 0:
            s = ""
        elif nl:
            s = "\n" + "\t" * depth
        elif text in (",", ")", "]", "[", "(", ".", ":", "?") or prev in ("(", ".", "["):
            s = " " if needs_space(prev, text) else ""
        else:
            s = " "
        if i and not s and needs_space(prev, text):
            s = " "
        out.append(s)
        line, col = advance(line, col, s)
        if node is not None:
            if isinstance(node, tuple):
                pos[(node[0], id(node[1])) + node[2:]] = (line, col)
            else:
                pos[id(node)] = (line, col)
        out.append(text)
        line, col = advance(line, col, text)
        prev = text
    tail = sep(len(toks), prev, "", True) if sep is not None else "\n"
    out.append(tail)
    return Rendered("".join(out).encode("latin-1"), pos)


def advance(line, col, s):
    n = s.count("\n")
    if n:
        return line + n, len(s) - s.rindex("\n") - 1
    return line, col + len(s)
