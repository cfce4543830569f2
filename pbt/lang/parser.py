"""Independent recognizer of the Hush grammar (command blocks excepted): text -> syntax tree of lang.syntax.

Raises Bad where the text is not a program, Unsupported where it has a command block."""
import re

from .syntax import KEYWORDS


class Bad(Exception):
    pass


class Unsupported(Exception):
    pass


WS = b" \t\n\r\x0c"
ESC = {34: 34, 39: 39, 110: 10, 116: 9, 48: 0, 92: 92}
WORD = re.compile(rb"[A-Za-z_][A-Za-z0-9_]*")
I64MAX = (1 << 63) - 1


def lex(t):
    """[(kind, value)] with kinds: word, kw, int, float, byte, str, sym"""
    out = []
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if c in WS:
            i += 1
        elif c == 35:
            while i < n and t[i] != 10:
                i += 1
        elif c == 34:
            i += 1
            b = bytearray()
            while True:
                if i >= n:
                    raise Bad("unterminated string")
                if t[i] == 34:
                    i += 1
                    break
                if t[i] == 92:
                    if i + 1 >= n or t[i + 1] not in ESC:
                        raise Bad("escape")
                    b.append(ESC[t[i + 1]])
                    i += 2
                else:
                    b.append(t[i])
                    i += 1
            out.append(("str", bytes(b)))
        elif c == 39:
            i += 1
            if i < n and t[i] == 92:
                if i + 1 >= n or t[i + 1] not in ESC:
                    raise Bad("escape")
                v = ESC[t[i + 1]]
                i += 2
            elif i < n and t[i] != 39:
                v = t[i]
                i += 1
            else:
                raise Bad("byte literal")
            if i >= n or t[i] != 39:
                raise Bad("byte literal")
            i += 1
            out.append(("byte", v))
        elif 48 <= c <= 57:
            j = i
            dot = exp = None
            while j < n:
                ch = t[j]
                if ch == 46 and dot is None and exp is None:
                    dot = False
                elif ch in b"eE" and exp is None:
                    exp = False
                elif 48 <= ch <= 57:
                    if dot is False:
                        dot = True
                    if exp is False:
                        exp = True
                else:
                    break
                j += 1
            if dot is False or exp is False:
                raise Bad("number")
            text = t[i:j].decode()
            if dot is None and exp is None:
                if int(text) > I64MAX:
                    raise Bad("integer out of range")
                out.append(("int", int(text)))
            else:
                out.append(("float", text))
            i = j
        elif WORD.match(t, i):
            w = WORD.match(t, i).group().decode()
            out.append(("kw" if w in KEYWORDS else "word", w))
            i += len(w)
        else:
            two = t[i:i + 2].decode("latin-1")
            if two in (">=", "<=", "++", "==", "!=", "@["):
                out.append(("sym", two))
                i += 2
            elif two in ("${", "&{") or c == 123:
                raise Unsupported()
            elif chr(c) in "-*/%.?:,()[]><+=":
                out.append(("sym", chr(c)))
                i += 1
            else:
                raise Bad("character")
    return out


LEVELS = [("or",), ("and",), ("==", "!="), ("<", "<=", ">", ">="), ("++",), ("+", "-"), ("*", "/", "%")]


class Parser:
    def __init__(self, toks):
        self.t = toks + [("eof", None), ("eof", None)]
        self.i = 0

    def at(self, *vals):
        k, v = self.t[self.i]
        return k in ("kw", "sym") and v in vals

    def eat(self, v):
        if not self.at(v):
            raise Bad("expected %s, found %r" % (v, self.t[self.i]))
        self.i += 1

    def ident(self):
        k, v = self.t[self.i]
        if k != "word":
            raise Bad("expected a name")
        self.i += 1
        return v

    def program(self):
        out = []
        while self.t[self.i][0] != "eof":
            if self.at("end", "else", "elseif"):
                raise Bad("stray terminator")
            out.append(self.stmt())
        return out

    def block(self):
        out = []
        while self.t[self.i][0] != "eof" and not self.at("end", "else", "elseif"):
            s = self.stmt()
            out.append(s)
            if s[0] == "return":
                break
        return out

    def stmt(self):
        if self.at("let"):
            self.i += 1
            n = self.ident()
            e = None
            if self.at("="):
                self.i += 1
                e = self.expr()
            return ["let", n, e]
        if self.at("function") and self.t[self.i + 1][0] == "word":
            self.i += 1
            n = self.ident()
            ps, b = self.function()
            return ["fn", n, ps, b]
        if self.at("return"):
            self.i += 1
            if self.at("end", "else", "elseif"):
                return ["return", None]
            return ["return", self.expr()]
        if self.at("break"):
            self.i += 1
            return ["break"]
        if self.at("while"):
            self.i += 1
            c = self.expr()
            self.eat("do")
            b = self.block()
            self.eat("end")
            return ["while", c, b]
        if self.at("for"):
            self.i += 1
            n = self.ident()
            self.eat("in")
            e = self.expr()
            self.eat("do")
            b = self.block()
            self.eat("end")
            return ["for", n, e, b]
        e = self.expr()
        if self.at("="):
            self.i += 1
            r = self.expr()
            return ["set", e, r]
        return ["expr", e]

    def expr(self, level=0):
        if level == len(LEVELS):
            return self.prefix()
        e = self.expr(level + 1)
        while self.at(*LEVELS[level]):
            op = self.t[self.i][1]
            self.i += 1
            e = ["bin", op, e, self.expr(level + 1)]
        return e

    def prefix(self):
        if self.at("-", "not"):
            op = self.t[self.i][1]
            self.i += 1
            return ["un", op, self.prefix()]
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.at("("):
                self.i += 1
                a = self.items(")")
                e = ["call", e, a]
            elif self.at("["):
                self.i += 1
                f = self.expr()
                self.eat("]")
                e = ["idx", e, f]
            elif self.at("."):
                self.i += 1
                e = ["dot", e, self.ident()]
            elif self.at("?"):
                self.i += 1
                e = ["try", e]
            else:
                return e

    def items(self, close, parse=None):
        out = []
        while not self.at(close):
            out.append((parse or self.expr)())
            if not self.at(","):
                break
            self.i += 1
        self.eat(close)
        return out

    def entry(self):
        n = self.ident()
        self.eat(":")
        return [n, self.expr()]

    def function(self):
        self.eat("(")
        ps = self.items(")", self.ident)
        b = self.block()
        self.eat("end")
        return ps, b

    def primary(self):
        k, v = self.t[self.i]
        if k == "word":
            self.i += 1
            return ["id", v]
        if k in ("int", "float", "byte"):
            self.i += 1
            return [k, v]
        if k == "str":
            self.i += 1
            return ["str", v.decode("latin-1")]
        if self.at("self", "nil", "true", "false"):
            self.i += 1
            return [v]
        if self.at("["):
            self.i += 1
            return ["arr", self.items("]")]
        if self.at("@["):
            self.i += 1
            return ["dict", self.items("]", self.entry)]
        if self.at("function"):
            self.i += 1
            ps, b = self.function()
            return ["func", ps, b]
        if self.at("if"):
            self.i += 1
            e = self.cond()
            self.eat("end")
            return e
        if self.at("("):
            self.i += 1
            e = self.expr()
            self.eat(")")
            return e
        raise Bad("expected an expression, found %r" % (v,))

    def cond(self):
        c = self.expr()
        self.eat("then")
        a = self.block()
        if self.at("elseif"):
            self.i += 1
            return ["if", c, a, [["expr", self.cond()]]]
        if self.at("else"):
            self.i += 1
            return ["if", c, a, self.block()]
        return ["if", c, a, None]


def parse(text):
    return Parser(lex(text)).program()
