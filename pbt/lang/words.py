"""Words of command blocks: generated as lists of parts, rendered as source, and expanded by a model.

   part:  ["t", style, [[source, bytes], ...]]   literal text; style "u" unquoted, "s" single, "d" double quoted
          ["v", name, braced, quoted]            a variable; quoted: inside of double quotes of its own
   texts are latin-1 strings standing for bytes."""
from hypothesis import strategies as st

from .values import Arr, Byte, Dct, Err, Fun, Nat, show_float

WS = " \t\n\r\x0c"
U_ESC = [["\\" + c, c] for c in "#'\"><?;$=" + WS] + [["\\n", "\n"], ["\\t", "\t"], ["\\\\", "\\"]]
S_ESC = [["\\'", "'"], ["\\n", "\n"], ["\\t", "\t"], ["\\\\", "\\"]]
D_ESC = [["\\\"", "\""], ["\\$", "$"], ["\\n", "\n"], ["\\t", "\t"], ["\\\\", "\\"]]
WORD = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-./:,+@^!"
# Unquoted: everything but comments, quotes, operators, dollars, the end of the block, whitespace, and the
# characters that begin an expansion. "|" is an operator only where a word would begin.
U_PLAIN = [c for c in map(chr, range(1, 256)) if c not in "#'\"><?;$=}" + WS + "*%\\"]
S_PLAIN = [c for c in map(chr, range(1, 256)) if c not in "'\\"]
D_PLAIN = [c for c in map(chr, range(1, 256)) if c not in "\"$\\"]
SPECIAL_U = ["[", "]", "{", "~", "|", "&", "(", ")", "!", "-", ",", "`", "\x7f", "\x0b", "^"]
SPECIAL_Q = list(" \t\n*?%~[]{}#;|&<>$'\"=()!`") + ["\r"]


def _table(style):
    plain, esc, special = {
        "u": (U_PLAIN, U_ESC, SPECIAL_U + ["="]), "s": (S_PLAIN, S_ESC, [c for c in SPECIAL_Q if c != "'"]),
        "d": (D_PLAIN, D_ESC, [c for c in SPECIAL_Q if c not in "\"$"])}[style]
    t = [[c, c] for c in WORD] * 6 + [[c, c] for c in special] * 8 + esc * 8 + [[c, c] for c in plain]
    return t


LIT = {s: st.lists(st.sampled_from(_table(s)), min_size=0 if s != "u" else 1, max_size=6) for s in "usd"}


def text_part(styles="usd"):
    return st.sampled_from(styles).flatmap(lambda s: LIT[s].map(lambda cs: ["t", s, cs]))


def plain_word(s):
    return [["t", "u", [[c, c] for c in s]]]


def var_part(names):
    return st.builds(lambda n, b, q: ["v", n, b, q], st.sampled_from(names), st.booleans(), st.booleans())


def words(names, max_parts=4):
    parts = [text_part(), text_part()]
    if names:
        parts.append(var_part(names))
    return st.lists(st.one_of(*parts), min_size=1, max_size=max_parts)


def identchar(c):
    return c.isascii() and (c.isalnum() or c == "_")


def source(word, offset=0):
    """Source of a word (latin-1 text), and the offsets of the dollars of its variables."""
    out, dollars = "", []
    n = len(word)
    for i, p in enumerate(word):
        if p[0] == "t":
            body = "".join(c[0] for c in p[2])
            if p[1] == "u":
                if not out and body[:1] == "|":
                    body = "'|'" + body[1:]
                if not out and body.startswith("~/"):
                    body = "'~'" + body[1:]
                out += body
            else:
                q = "'" if p[1] == "s" else '"'
                out += q + body + q
        else:
            nxt = ""
            if i + 1 < n:
                q = word[i + 1]
                nxt = q[2][0][0][0] if q[0] == "t" and q[1] == "u" and q[2] else "'" if q[0] == "t" else "$"
            brace = p[2] or (not p[3] and identchar(nxt))
            if p[3]:
                out += '"'
            dollars.append((offset + len(out), p[1]))
            out += "${%s}" % p[1] if brace else "$" + p[1]
            if p[3]:
                out += '"'
    return out, dollars


def basic(v):
    """Bytes a single value expands to; None if it has no such form."""
    if v is None:
        return b""
    if v is True or v is False:
        return b"true" if v else b"false"
    if isinstance(v, int):
        return b"%d" % v
    if isinstance(v, float):
        return show_float(v).encode() if isinstance(show_float(v), str) else show_float(v)
    if isinstance(v, Byte):
        return bytes([v.b])
    if isinstance(v, bytes):
        return v
    return None


class TooBig(Exception):
    """More than the system lets pass to a process."""


class NoForm(Exception):
    """A variable holds a value without an argument form."""
    def __init__(self, name, index):
        self.name, self.index = name, index


def expand(word, env):
    """The arguments a word without patterns denotes."""
    args, nv = [], 0
    for p in word:
        if p[0] == "t":
            b = "".join(c[1] for c in p[2]).encode("latin-1")
            if not b and p[1] != "u":
                continue
            args = [a + b for a in args or [b""]]
        else:
            v = env[p[1]]
            if isinstance(v, Arr):
                items = [basic(x) for x in v.items]
                if any(x is None for x in items):
                    raise NoForm(p[1], nv)
                if items:
                    if len(items) * max(1, len(args)) > 4000:
                        raise TooBig()
                    args = [a + x for x in items for a in args or [b""]]
            else:
                b = basic(v)
                if b is None:
                    raise NoForm(p[1], nv)
                args = [a + b for a in args or [b""]]
            nv += 1
        if sum(map(len, args)) > 300000 or max(map(len, args), default=0) > 100000:
            raise TooBig()
    if not args and nv == 0:
        return [b""]
    return args
