"""Reference model of Hush values: equality, order, hashing keys, display."""
import decimal
import math

from .unitab import escaped

decimal.getcontext().prec = 2000

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1


class Byte:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class Arr:
    __slots__ = ("items",)

    def __init__(self, items=None):
        self.items = items if items is not None else []


class Dct:
    """Dict. Entries keyed by a canonical key; a key containing NaN equals nothing."""
    __slots__ = ("d",)

    def __init__(self):
        self.d = {}

    def get(self, k):
        e = self.d.get(canon(k))
        return e

    def put(self, k, v):
        c = canon(k)
        old = self.d.get(c)
        # HashMap::insert keeps the old key (observable for -0.0/0.0 keys only).
        self.d[c] = (old[0] if old else k, v)

    def entries(self):
        return list(self.d.values())

    def __len__(self):
        return len(self.d)


class Err:
    __slots__ = ("desc", "ctx")

    def __init__(self, desc, ctx):
        self.desc, self.ctx = desc, ctx


class Fun:
    """A function written in Hush."""
    __slots__ = ("node", "frame", "captures", "pos")

    def __init__(self, node, frame, captures, pos):
        self.node, self.frame, self.captures, self.pos = node, frame, captures, pos


class Nat:
    """A native function: name and python callable(interp, selfobj, args, pos)."""
    __slots__ = ("name", "call")

    def __init__(self, name, call):
        self.name, self.call = name, call


class _Nan:
    __slots__ = ()


def canon(v):
    """A python-hashable key such that canon(a) == canon(b) iff the Hush values are equal."""
    if v is None:
        return ("n",)
    if v is True or v is False:
        return ("b", v)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, float):
        if math.isnan(v):
            return ("nan", _Nan())
        return ("f", v + 0.0 if v != 0 else 0.0)
    if isinstance(v, Byte):
        return ("y", v.b)
    if isinstance(v, bytes):
        return ("s", v)
    if isinstance(v, Arr):
        return ("a", tuple(canon(x) for x in v.items))
    if isinstance(v, Dct):
        return ("d", frozenset((canon(k), canon(x)) for k, x in v.entries()))
    if isinstance(v, Err):
        return ("e", v.desc, canon(v.ctx))
    if isinstance(v, Nat):
        return ("N", v.name)
    if isinstance(v, Fun):
        return ("F", id(v.node), tuple(canon(c.v) for c in v.captures))
    raise TypeError(v)


def eq(a, b):
    return canon(a) == canon(b)


def type_name(v):
    if v is None:
        return "nil"
    if v is True or v is False:
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, Byte):
        return "char"
    if isinstance(v, bytes):
        return "string"
    if isinstance(v, Arr):
        return "array"
    if isinstance(v, Dct):
        return "dict"
    if isinstance(v, (Fun, Nat)):
        return "function"
    if isinstance(v, Err):
        return "error"
    raise TypeError(v)


TYPES = ["nil", "bool", "char", "int", "float", "string", "array", "dict", "function", "error"]
RANK = {t: i for i, t in enumerate(TYPES)}


def cmp(a, b):
    """Total order used by sort. NaN is lower than everything, itself included."""
    ra, rb = RANK[type_name(a)], RANK[type_name(b)]
    if ra != rb:
        return -1 if ra < rb else 1
    if a is None:
        return 0
    if isinstance(a, float):
        if math.isnan(a):
            return -1
        if math.isnan(b):
            return 1
        return (a > b) - (a < b)
    if isinstance(a, Byte):
        return (a.b > b.b) - (a.b < b.b)
    if isinstance(a, (bool, int, bytes)):
        return (a > b) - (a < b)
    if isinstance(a, Arr):
        for x, y in zip(a.items, b.items):
            c = cmp(x, y)
            if c:
                return c
        return (len(a.items) > len(b.items)) - (len(a.items) < len(b.items))
    if isinstance(a, Dct):
        import functools
        k = functools.cmp_to_key(lambda p, q: cmp(p[0], q[0]))
        ea, eb = sorted(a.entries(), key=k), sorted(b.entries(), key=k)
        for (k1, v1), (k2, v2) in zip(ea, eb):
            c = cmp(k1, k2) or cmp(v1, v2)
            if c:
                return c
        return (len(ea) > len(eb)) - (len(ea) < len(eb))
    if isinstance(a, Err):
        c = (a.desc > b.desc) - (a.desc < b.desc)
        return c or cmp(a.ctx, b.ctx)
    raise TypeError("unordered in the model: %r" % (a,))


# -- display -----------------------------------------------------------------------------------
def shortest(f):
    """The shortest decimal that reads back as f and is closest to it; of two equally close ones, the larger."""
    from decimal import Decimal
    r = repr(f)
    if f < 1e12 and f > 1e-3 and f == int(f):
        return r
    d, exact = Decimal(r), Decimal(f)
    if d < exact:
        t = d.as_tuple()
        digits = list(t.digits)
        exp = t.exponent
        while len(digits) > 1 and digits[-1] == 0:
            digits.pop()
            exp += 1
        up = Decimal((0, tuple(digits), exp)) + Decimal((0, (1,), exp))
        if up - exact == exact - d and float(up) == f:
            return repr_decimal(up)
    return r


def repr_decimal(d):
    t = d.as_tuple()
    return "%se%d" % ("".join(map(str, t.digits)), t.exponent)


def show_float(f):
    if math.isnan(f):
        return "NaN"
    if math.isinf(f):
        return "inf" if f > 0 else "-inf"
    if f == 0:
        return "-0.0" if math.copysign(1, f) < 0 else "0.0"
    sign = "-" if f < 0 else ""
    r = shortest(abs(f))
    if "e" in r:
        m, e = r.split("e")
        e = int(e)
    else:
        m, e = r, 0
    if "." in m:
        ip, fp = m.split(".")
    else:
        ip, fp = m, ""
    digits = ip + fp
    point = len(ip) + e
    stripped = digits.lstrip("0")
    point -= len(digits) - len(stripped)
    digits = stripped.rstrip("0") or "0"
    # value = 0.DIGITS * 10^point
    if 1e-4 <= abs(f) < 1e16:
        if point <= 0:
            return sign + "0." + "0" * (-point) + digits
        if point >= len(digits):
            return sign + digits + "0" * (point - len(digits)) + ".0"
        return sign + digits[:point] + "." + digits[point:]
    exp = point - 1
    m = digits[0] + ("." + digits[1:] if len(digits) > 1 else "")
    return "%s%se%d" % (sign, m, exp)


_ESC = {"\t": "\\t", "\n": "\\n", "\r": "\\r", "'": "\\'", '"': '\\"', "\\": "\\\\", "\0": "\\0"}


def escape_debug(s):
    out = []
    for i, c in enumerate(s):
        if c in _ESC:
            out.append(_ESC[c])
        elif c.isascii():
            out.append(c if 0x20 <= ord(c) < 0x7f else "\\u{%x}" % ord(c))
        else:
            out.append("\\u{%x}" % ord(c) if escaped(c, i == 0) else c)
    return "".join(out)


def show_str(b):
    return '"%s"' % escape_debug(b.decode("utf-8", "replace"))


def show(v):
    """What std.to_string yields (as text)."""
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return show_float(v)
    if isinstance(v, Byte):
        return chr(v.b)
    if isinstance(v, bytes):
        return show_str(v)
    if isinstance(v, Arr):
        return "[" + ",".join(" " + show(x) for x in v.items) + " ]"
    if isinstance(v, Dct):
        return "@[" + ",".join(" %s: %s" % (show(k), show(x)) for k, x in v.entries()) + " ]"
    if isinstance(v, Err):
        return "error: %s (%s)" % (show_str(v.desc), show(v.ctx))
    if isinstance(v, Nat):
        return v.name
    if isinstance(v, Fun):
        return "function<%s>" % show_pos(v.pos)
    raise TypeError(v)


def show_pos(pos):
    return "%s (line %d, column %d)" % pos


def print_bytes(v):
    """What std.print writes for a value."""
    if isinstance(v, bytes):
        return v
    if isinstance(v, Byte):
        return bytes([v.b])
    return show(v).encode("utf-8", "surrogateescape")


# -- canonical text: dict entries are displayed in no particular order ----------------------------
def canonical(text):
    """Sorts the entries of every displayed dict in a text."""
    if b"@[" not in text:
        return text
    out, i = _canon(text, 0, None)
    return out


def _canon(t, i, close):
    """Copies t from i until the matching ' ]' (close=b'd' dict / b'a' array) or the end."""
    n = len(t)
    parts = [[]]

    while i < n:
        c = t[i:i + 1]
        if c == b'"':
            j = i + 1
            while j < n and t[j:j + 1] != b'"':
                j += 2 if t[j:j + 1] == b"\\" else 1
            lit = t[i:j + 1]
            if b"@[ " in lit:
                # A dict displayed inside of a quoted text (a caught panic): its entries are in
                # no particular order, so only the multiset of its bytes is compared.
                lit = b'"' + bytes(sorted(lit)) + b'"'
            parts[-1].append(lit)
            i = j + 1
        elif t.startswith(b"@[ ", i):
            s, i = _canon(t, i + 2, b"d")
            parts[-1].append(b"@[" + s)
        elif t.startswith(b"[ ", i):
            s, i = _canon(t, i + 1, b"a")
            parts[-1].append(b"[" + s)
        elif close and t.startswith(b" ]", i):
            i += 2
            es = [b"".join(p) for p in parts]
            if close == b"d":
                es.sort()
            return b",".join(es) + b" ]", i
        elif close == b"d" and t.startswith(b", ", i):
            parts.append([])
            i += 1
        else:
            parts[-1].append(c)
            i += 1
    es = [b"".join(p) for p in parts]
    return b",".join(es), i
