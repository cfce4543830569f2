"""Reference interpreter for Hush, over the syntax of lang.syntax.

Written from the language's documentation and observed behaviour as a plain tree walker with
heap-allocated variables; it shares nothing with the implementation (no slots, no stack, no tail calls)."""
import math
import base64 as b64

from .values import (
    Arr, Byte, Dct, Err, Fun, I64MAX, I64MIN, Nat, canon, cmp, eq, print_bytes, show, show_pos, type_name,
    TYPES,
)


class HushPanic(Exception):
    def __init__(self, pos, msg):
        self.pos, self.msg = pos, msg

    def text(self):
        return "Panic in %s: %s" % (show_pos(self.pos), self.msg)


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Exit(Exception):
    def __init__(self, code):
        self.code = code


def reaches(v, target, seen=None):
    """Whether a value holds another."""
    if v is target:
        return True
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Arr):
        return any(reaches(x, target, seen) for x in v.items)
    if isinstance(v, Dct):
        return any(reaches(x, target, seen) for e in v.entries() for x in e)
    if isinstance(v, Err):
        return reaches(v.ctx, target, seen)
    if isinstance(v, Fun):
        return any(reaches(c.v, target, seen) for c in v.captures)
    return False


class Budget(Exception):
    """The program is too long-running for the model: the case is skipped."""


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class FnInfo:
    def __init__(self, parent):
        self.parent = parent
        self.captures = []      # decls of enclosing functions, in order of first use

    def capture(self, decl):
        if decl not in self.captures:
            self.captures.append(decl)


class Resolver:
    """Static name resolution. Raises StaticError on what the language rejects."""

    def __init__(self, stmts):
        self.use = {}       # id(identifier node or statement) -> decl
        self.info = {}      # id(func node / fn stmt) -> FnInfo
        self.params = {}    # id(func node / fn stmt) -> [decl]
        self.errors = []
        self.n = 0
        root = FnInfo(None)
        self.fn = root
        self.scopes = [(root, {"std": ("std",)})]
        self.loops = 0
        for s in stmts:
            self.stmt(s)

    def declare(self, name, where):
        fn, vars = self.scopes[-1]
        if name in vars:
            self.errors.append(("duplicate", name, where))
        self.n += 1
        d = (name, self.n)
        vars[name] = d
        return d

    def lookup(self, name, where):
        crossed = []
        cur = self.fn
        for fn, vars in reversed(self.scopes):
            while cur is not fn:
                crossed.append(cur)
                cur = cur.parent
            if name in vars:
                d = vars[name]
                for c in crossed:
                    c.capture(d)
                return d
        self.errors.append(("undeclared", name, where))
        return ("?", 0)

    def block(self, stmts):
        self.scopes.append((self.fn, {}))
        for s in stmts:
            self.stmt(s)
        self.scopes.pop()

    def func(self, node, params, body):
        info = FnInfo(self.fn)
        self.info[id(node)] = info
        old, self.fn = self.fn, info
        oldl, self.loops = self.loops, 0
        self.scopes.append((info, {}))
        self.params[id(node)] = [self.declare(p, ("param", id(node), i)) for i, p in enumerate(params)]
        for s in body:
            self.stmt(s)
        self.scopes.pop()
        self.fn = old
        self.loops = oldl

    def stmt(self, s):
        k = s[0]
        if k == "let":
            self.use[id(s)] = self.declare(s[1], ("name", id(s)))
            if s[2] is not None:
                self.expr(s[2])
        elif k == "fn":
            self.use[id(s)] = self.declare(s[1], ("name", id(s)))
            self.func(s, s[2], s[3])
        elif k == "set":
            lv = s[1]
            while lv[0] == "par":
                lv = lv[1]
            if lv[0] in ("id", "idx", "dot"):
                self.expr(lv)
            else:
                self.errors.append(("assign", None, ("assign", id(s))))
            self.expr(s[2])
        elif k == "return":
            if self.fn.parent is None:
                self.errors.append(("return", None, id(s)))
            if s[1] is not None:
                self.expr(s[1])
        elif k == "break":
            if not self.loops:
                self.errors.append(("break", None, id(s)))
        elif k == "while":
            self.expr(s[1])
            self.loops += 1
            self.block(s[2])
            self.loops -= 1
        elif k == "for":
            self.expr(s[2])
            self.loops += 1
            self.scopes.append((self.fn, {}))
            self.use[id(s)] = self.declare(s[1], ("name", id(s)))
            for x in s[3]:
                self.stmt(x)
            self.scopes.pop()
            self.loops -= 1
        elif k == "expr":
            self.expr(s[1])

    def expr(self, e):
        k = e[0]
        if k == "id":
            self.use[id(e)] = self.lookup(e[1], id(e))
        elif k == "self":
            if self.fn.parent is None:
                self.errors.append(("self", None, id(e)))
        elif k == "arr":
            for x in e[1]:
                self.expr(x)
        elif k == "dict":
            seen = set()
            for i, (n, x) in enumerate(e[1]):
                if n in seen:
                    self.errors.append(("key", n, ("key", id(e), i)))
                seen.add(n)
                self.expr(x)
        elif k == "func":
            self.func(e, e[1], e[2])
        elif k == "if":
            self.expr(e[1])
            self.block(e[2])
            if e[3] is not None:
                self.block(e[3])
        elif k == "idx":
            self.expr(e[1])
            self.expr(e[2])
        elif k in ("dot", "par"):
            self.expr(e[1])
        elif k == "try":
            before = len(self.errors)
            self.expr(e[1])
            if self.fn.parent is None and len(self.errors) == before:
                self.errors.append(("try", None, id(e)))
        elif k == "call":
            self.expr(e[1])
            for x in e[2]:
                self.expr(x)
        elif k == "un":
            self.expr(e[2])
        elif k == "bin":
            self.expr(e[2])
            self.expr(e[3])
        elif k == "cmd" and len(e) > 2:
            for off, kind, name in e[2]:
                if kind == "var":
                    self.use[("cmd", id(e), off)] = self.lookup(name, ("cmd", id(e), off))
                else:
                    self.errors.append(("builtin", None, ("cmd", id(e), off)))


STATIC_TEXT = {
    "undeclared": "undeclared variable '%s'", "duplicate": "duplicate variable '%s'", "key": "duplicate key '%s'",
    "return": "return statement outside function", "self": "self keyword outside function",
    "try": "try operator outside function", "break": "break statement outside loop", "assign": "invalid assignment",
    "builtin": "use of built-in command in async context",
}


def static_errors(stmts, rendered, path="t.hsh"):
    """The diagnostics for a program, as lines."""
    out = []
    for kind, name, where in Resolver(stmts).errors:
        text = STATIC_TEXT[kind]
        if isinstance(where, tuple) and where[0] == "cmd":
            line, col = rendered.pos[where[1]]
            rendered.pos[where] = (line, col + where[2])
        out.append("Error: %s (line %d, column %d) - %s" % (
            (path,) + rendered.pos[where] + (text % name if "%s" in text else text,)))
    return out


class Frame:
    __slots__ = ("cells", "self_v", "outer")

    def __init__(self, outer, self_v):
        self.cells = {}
        self.outer = outer
        self.self_v = self_v

    def cell(self, decl):
        c = self.outer.get(decl)
        if c is None:
            c = self.cells.get(decl)
            if c is None:
                c = self.cells[decl] = Cell()
        return c


class Interp:
    """Runs a program; collects what it prints and how it ends."""

    def __init__(self, stmts, rendered, path="t.hsh", steps=200000, depth=400):
        self.stmts = stmts
        self.positions = rendered.pos
        self.path = path
        self.out = []
        self.steps = steps
        self.depth = depth
        self.res = Resolver(stmts)
        if self.res.errors:
            raise ValueError("statically invalid program: %r" % self.res.errors[:3])
        self.std = make_std()
        self.status = 0
        self.panic = None
        self.counts = {}
        self.unordered = False      # a dict was iterated, whose order is unspecified

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def run(self):
        root = Frame({}, None)
        root.cells[("std",)] = Cell(self.std)
        try:
            self.block(self.stmts, root)
        except HushPanic as p:
            self.panic = p
            self.status = 127
        except Exit as e:
            self.status = e.code
        except RecursionError:
            raise Budget()
        return self

    @property
    def stdout(self):
        return b"".join(self.out)

    @property
    def stderr(self):
        return (self.panic.text() + "\n").encode("utf-8", "surrogateescape") if self.panic else b""

    # -- positions --------------------------------------------------------------------------------
    def pos(self, e):
        while e[0] == "par":
            e = e[1]
        return (self.path,) + self.positions[id(e)]

    def fpos(self, e):
        return (self.path,) + self.positions[("f", id(e))]

    # -- statements -------------------------------------------------------------------------------
    def block(self, stmts, fr):
        v = None
        for s in stmts:
            v = self.stmt(s, fr)
        return v

    def stmt(self, s, fr):
        self.steps -= 1
        if self.steps < 0:
            raise Budget()
        k = s[0]
        if k == "expr":
            return self.expr(s[1], fr)
        if k == "let":
            v = self.expr(s[2], fr) if s[2] is not None else None
            fr.cell(self.res.use[id(s)]).v = v
        elif k == "fn":
            fr.cell(self.res.use[id(s)]).v = self.func(s, fr)
        elif k == "set":
            self.assign(s[1], s[2], fr)
        elif k == "return":
            raise Return(self.expr(s[1], fr) if s[1] is not None else None)
        elif k == "break":
            raise Break()
        elif k == "while":
            while True:
                self.steps -= 1
                if self.steps < 0:
                    raise Budget()
                c = self.expr(s[1], fr)
                if c is not True and c is not False:
                    raise HushPanic(self.pos(s[1]), "condition (%s) is not a boolean" % show(c))
                if not c:
                    break
                try:
                    self.block(s[2], fr)
                except Break:
                    self.count("break")
                    break
        elif k == "for":
            it = self.expr(s[2], fr)
            p = self.pos(s[2])
            if not isinstance(it, (Fun, Nat)):
                raise type_error(it, "function", p)
            var = fr.cell(self.res.use[id(s)])
            while True:
                self.steps -= 1
                if self.steps < 0:
                    raise Budget()
                r = self.call(it, None, [], p)
                if not isinstance(r, Dct):
                    raise type_error(r, "dict", p)
                f = r.get(b"finished")
                if f is None:
                    raise out_of_bounds(b"finished", p)
                f = f[1]
                if f is True:
                    break
                if f is not False:
                    raise type_error(f, "bool", p)
                val = r.get(b"value")
                if val is None:
                    raise out_of_bounds(b"value", p)
                var.v = val[1]
                try:
                    self.block(s[3], fr)
                except Break:
                    self.count("break")
                    break
        else:
            raise ValueError(s)
        return None

    def assign(self, lv, e, fr):
        v = self.expr(e, fr)
        if lv[0] == "id":
            fr.cell(self.res.use[id(lv)]).v = v
            return
        obj = self.expr(lv[1], fr)
        if lv[0] == "dot":
            field, fp = lv[2].encode(), self.fpos(lv)
        else:
            field, fp = self.expr(lv[2], fr), self.pos(lv[2])
        if isinstance(obj, Dct):
            if isinstance(field, (Arr, Dct, Err, Fun)) and reaches(field, obj):
                raise Budget()      # a known finding of C11: a dict as a key of itself
            obj.put(field, v)
        elif isinstance(obj, Arr):
            if not is_int(field):
                raise type_error(field, "int", fp)
            if field >= len(obj.items):
                raise out_of_bounds(field, fp)
            if field < 0:
                raise out_of_bounds(field, self.pos(lv))
            obj.items[field] = v
        elif isinstance(obj, Err):
            raise HushPanic(fp, "attempt to assign field (%s), which is readonly" % show(field))
        else:
            raise type_error(obj, "array, dict or error", self.pos(lv[1]))

    # -- expressions ------------------------------------------------------------------------------
    def func(self, node, fr):
        info = self.res.info[id(node)]
        caps = {d: fr.cell(d) for d in info.captures}
        if node[0] == "fn":
            return Fun(node, caps, list(caps.values()), self.pos(node))
        return Fun(node, caps, list(caps.values()), self.pos(node))

    def expr(self, e, fr):
        return self.expr_self(e, fr)[0]

    def expr_self(self, e, fr):
        """(value, object it was accessed from)"""
        self.steps -= 1
        if self.steps < 0:
            raise Budget()
        k = e[0]
        if k == "par":
            return self.expr_self(e[1], fr)
        if k == "dot" or k == "idx":
            obj = self.expr(e[1], fr)
            if k == "dot":
                field, fp = e[2].encode(), self.fpos(e)
            else:
                field, fp = self.expr(e[2], fr), self.pos(e[2])
            return self.access(obj, field, self.pos(e[1]), fp), obj
        return self.plain(e, fr), None

    def access(self, obj, field, op, fp):
        if isinstance(obj, Dct):
            r = obj.get(field)
            if r is None:
                raise out_of_bounds(field, fp)
            return r[1]
        if isinstance(obj, Arr):
            if not is_int(field):
                raise type_error(field, "int", fp)
            if not 0 <= field < len(obj.items):
                raise out_of_bounds(field, fp)
            return obj.items[field]
        if isinstance(obj, bytes):
            if not is_int(field):
                raise type_error(field, "int", fp)
            if not 0 <= field < len(obj):
                raise out_of_bounds(field, fp)
            return Byte(obj[field])
        if isinstance(obj, Err):
            if field == b"description":
                return obj.desc
            if field == b"context":
                return obj.ctx
            raise out_of_bounds(field, fp)
        raise type_error(obj, "string, array, dict or error", op)

    def plain(self, e, fr):
        k = e[0]
        if k == "nil":
            return None
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "int":
            return e[1]
        if k == "float":
            return float(e[1])
        if k == "byte":
            return Byte(e[1])
        if k == "str":
            return e[1].encode("latin-1")
        if k == "id":
            return fr.cell(self.res.use[id(e)]).v
        if k == "self":
            return fr.self_v
        if k == "arr":
            return Arr([self.expr(x, fr) for x in e[1]])
        if k == "dict":
            d = Dct()
            for n, x in e[1]:
                d.put(n.encode(), self.expr(x, fr))
            return d
        if k == "func":
            return self.func(e, fr)
        if k == "if":
            c = self.expr(e[1], fr)
            if c is not True and c is not False:
                raise HushPanic(self.pos(e[1]), "condition (%s) is not a boolean" % show(c))
            b = e[2] if c else e[3]
            return self.block(b, fr) if b is not None else None
        if k == "call":
            f, obj = self.expr_self(e[1], fr)
            if not isinstance(f, (Fun, Nat)):
                raise HushPanic(self.pos(e[1]), "attempt to call (%s), which is not a function" % show(f))
            args = [self.expr(x, fr) for x in e[2]]
            return self.call(f, obj, args, self.pos(e))
        if k == "try":
            v = self.expr(e[1], fr)
            if isinstance(v, Err):
                self.count("try returned")
                raise Return(v)
            return v
        if k == "cmd" and len(e) > 3 and e[3] == "badvar":
            # A command with an argument that has no argument form.
            off = e[2][0][0]
            v = fr.cell(self.res.use[("cmd", id(e), off)]).v
            _, line, col = self.pos(e)
            raise type_error(v, "nil, bool, int, float, byte or string", (self.path, line, col + off))
        if k == "cmd" and len(e) > 3 and e[3] == "noop":
            # Commands that succeed without any effect, whose value is not used.
            return None
        if k == "un":
            return self.unary(e, fr)
        if k == "bin":
            return self.binary(e, fr)
        raise ValueError(e)

    def unary(self, e, fr):
        v = self.expr(e[2], fr)
        if e[1] == "-":
            if isinstance(v, float):
                return -v
            if is_int(v):
                if v == I64MIN:
                    raise HushPanic(self.pos(e[2]), "integer overflow")
                return -v
            raise type_error(v, "int or float", self.pos(e[2]))
        if v is True or v is False:
            return not v
        raise type_error(v, "bool", self.pos(e[2]))

    def binary(self, e, fr):
        op = e[1]
        a = self.expr(e[2], fr)
        if op in ("and", "or"):
            if a is not True and a is not False:
                raise type_error(a, "bool", self.pos(e[2]))
            if a is (op == "or"):
                self.count("short circuit")
                return a
            b = self.expr(e[3], fr)
            if b is not True and b is not False:
                raise type_error(b, "bool", self.pos(e[3]))
            return b
        b = self.expr(e[3], fr)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return not eq(a, b)
        if op == "++":
            if not isinstance(a, bytes):
                raise type_error(a, "string", self.pos(e[2]))
            if not isinstance(b, bytes):
                raise type_error(b, "string", self.pos(e[3]))
            return a + b
        if op in ("<", "<=", ">", ">="):
            ta, tb = type_name(a), type_name(b)
            if ta not in ("int", "float", "char", "string"):
                raise type_error(a, "int, float, byte or string", self.pos(e[2]))
            if ta != tb:
                raise type_error(b, ta, self.pos(e[3]))
            c = cmp(a, b)
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        return arith(op, a, b, self.pos(e), self.pos(e[2]), self.pos(e[3]))

    # -- calls ------------------------------------------------------------------------------------
    def call(self, f, obj, args, pos):
        if isinstance(f, Nat):
            return f.call(self, obj, args, pos)
        node = f.node
        params = node[2] if node[0] == "fn" else node[1]
        body = node[3] if node[0] == "fn" else node[2]
        if len(args) != len(params):
            raise bad_args(len(args), len(params), pos)
        fr = Frame(f.frame, obj)
        for d, v in zip(self.res.params[id(node)], args):
            fr.cell(d).v = v
        self.depth -= 1
        if self.depth < 0:
            raise Budget()
        try:
            return self.block(body, fr)
        except Return as r:
            return r.v
        finally:
            self.depth += 1


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def type_error(v, expected, pos):
    return HushPanic(pos, "value (%s) has unexpected type, expected %s" % (show(v), expected))


def value_error(v, expected, pos):
    return HushPanic(pos, "invalid value (%s), expected %s" % (show(v), expected))


def out_of_bounds(i, pos):
    return HushPanic(pos, "index (%s) out of bounds" % show(i))


def bad_args(n, m, pos):
    return HushPanic(pos, "incorrect amount of function parameters -- supplied %d, expected %d" % (n, m))


def int_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def fdiv(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def frem(a, b):
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or b == 0:
        return math.nan
    return math.fmod(a, b)


def arith(op, a, b, pos, lpos, rpos):
    if is_int(a):
        if not is_int(b):
            raise type_error(b, "int", rpos)
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif b == 0:
            raise HushPanic(pos, "division by zero")
        elif b == -1 and a == I64MIN:
            # An overflow, reported under this name; either way it panics at the operator.
            raise HushPanic(pos, "division by zero")
        elif op == "/":
            r = int_div(a, b)
        else:
            r = a - b * int_div(a, b)
        if not I64MIN <= r <= I64MAX:
            raise HushPanic(pos, "integer overflow")
        return r
    if isinstance(a, float):
        if not isinstance(b, float):
            raise type_error(b, "float", rpos)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return fdiv(a, b)
        return frem(a, b)
    raise type_error(a, "int or float", lpos)


# -- the standard library ---------------------------------------------------------------------------
def arity(n):
    def deco(f):
        def g(it, obj, args, pos):
            if len(args) != n:
                raise bad_args(len(args), n, pos)
            return f(it, args, pos)
        g.__name__ = f.__name__
        return g
    return deco


def s_println(it, obj, args, pos):
    s_print(it, obj, args, pos)
    it.out.append(b"\n")


def s_print(it, obj, args, pos):
    for i, a in enumerate(args):
        if i:
            it.out.append(b"\t")
        it.out.append(print_bytes(a))


@arity(1)
def s_len(it, a, pos):
    v = a[0]
    if isinstance(v, bytes):
        return len(v)
    if isinstance(v, Arr):
        return len(v.items)
    if isinstance(v, Dct):
        return len(v)
    raise type_error(v, "string, array or dict", pos)


@arity(1)
def s_is_empty(it, a, pos):
    v = a[0]
    if isinstance(v, bytes):
        return len(v) == 0
    if isinstance(v, Arr):
        return len(v.items) == 0
    if isinstance(v, Dct):
        return len(v) == 0
    raise type_error(v, "string, array or dict", pos)


@arity(2)
def s_push(it, a, pos):
    if not isinstance(a[0], Arr):
        raise type_error(a[0], "array", pos)
    a[0].items.append(a[1])


@arity(1)
def s_pop(it, a, pos):
    if not isinstance(a[0], Arr):
        raise type_error(a[0], "array", pos)
    if not a[0].items:
        raise HushPanic(pos, "collection is empty")
    return a[0].items.pop()


@arity(1)
def s_sort(it, a, pos):
    import functools
    if not isinstance(a[0], Arr):
        raise type_error(a[0], "array", pos)
    a[0].items.sort(key=functools.cmp_to_key(cmp))


@arity(2)
def s_contains(it, a, pos):
    c, x = a
    if isinstance(c, Arr):
        return any(eq(y, x) for y in c.items)
    if isinstance(c, Dct):
        return c.get(x) is not None
    if isinstance(c, bytes):
        if not isinstance(x, Byte):
            raise type_error(x, "char", pos)
        return x.b in c
    raise type_error(c, "string ,array or dict", pos)


@arity(1)
def s_type(it, a, pos):
    return type_name(a[0]).encode()


@arity(2)
def s_error(it, a, pos):
    if not isinstance(a[0], bytes):
        raise type_error(a[0], "string", pos)
    return Err(a[0], a[1])


def has_error(v):
    if isinstance(v, Err):
        return True
    if isinstance(v, Arr):
        return any(has_error(x) for x in v.items)
    if isinstance(v, Dct):
        return any(has_error(k) or has_error(x) for k, x in v.entries())
    return False


@arity(1)
def s_has_error(it, a, pos):
    return has_error(a[0])


@arity(1)
def s_to_string(it, a, pos):
    v = a[0]
    return v if isinstance(v, bytes) else show(v).encode("utf-8", "surrogateescape")


@arity(1)
def s_panic(it, a, pos):
    raise HushPanic(pos, "std.panic(%s)" % show(a[0]))


@arity(1)
def s_assert(it, a, pos):
    if a[0] is True:
        return None
    if a[0] is False:
        raise HushPanic(pos, "assertion failed")
    raise type_error(a[0], "bool", pos)


@arity(1)
def s_catch(it, a, pos):
    if not isinstance(a[0], (Fun, Nat)):
        raise type_error(a[0], "function", pos)
    try:
        return it.call(a[0], None, [], pos)
    except HushPanic as p:
        it.count("caught")
        return Err(("caught panic: " + p.text()).encode("utf-8", "surrogateescape"), b"panic")


@arity(2)
def s_bind(it, a, pos):
    obj, f = a
    if not isinstance(f, (Fun, Nat)):
        raise type_error(f, "function", pos)
    return Nat("std.bind<impl>", lambda it, _o, args, pos: it.call(f, obj, args, pos))


@arity(1)
def s_exit(it, a, pos):
    v = a[0]
    if not is_int(v):
        raise type_error(v, "int", pos)
    if not 0 <= v <= 255:
        raise value_error(v, "valid exit code", pos)
    raise Exit(v)


@arity(3)
def s_range(it, a, pos):
    for v in a:
        if not is_int(v) and not isinstance(v, float):
            raise type_error(v, "int or float", pos)
    if any(isinstance(v, float) for v in a):
        a = [float(v) for v in a]
    state = {"x": a[0]}
    to, step = a[1], a[2]
    positive = step > 0

    def nxt(it, _o, args, pos):
        if args:
            raise bad_args(len(args), 0, pos)
        d = Dct()
        x = state["x"]
        fin = x is None or (not x < to if positive else not x > to)
        d.put(b"finished", fin)
        if not fin:
            d.put(b"value", x)
            n = x + step
            state["x"] = n if isinstance(n, float) or I64MIN <= n <= I64MAX else None
        return d
    return Nat("std.range<impl>", nxt)


@arity(1)
def s_iter(it, a, pos):
    v = a[0]
    if isinstance(v, Dct):
        todo = v.entries()
        todo.reverse()
        if len(todo) > 1:
            it.unordered = True

        def get():
            if not todo:
                return False, None
            k, x = todo.pop()
            d = Dct()
            d.put(b"key", k)
            d.put(b"value", x)
            return True, d
    elif isinstance(v, (Arr, bytes)):
        state = [0]

        def get():
            i = state[0]
            n = len(v.items) if isinstance(v, Arr) else len(v)
            if i >= n:
                return False, None
            state[0] += 1
            return True, v.items[i] if isinstance(v, Arr) else Byte(v[i])
    else:
        raise type_error(v, "string, array or dict", pos)

    def nxt(it, _o, args, pos):
        if args:
            raise bad_args(len(args), 0, pos)
        ok, x = get()
        d = Dct()
        d.put(b"finished", not ok)
        if ok:
            d.put(b"value", x)
        return d
    return Nat("std.iter<impl>", nxt)


def float_to_int(f):
    if math.isnan(f):
        return 0
    if f >= 9.223372036854775807e18:
        return I64MAX
    if f <= -9.223372036854775808e18:
        return I64MIN
    return int(f)


import re  # noqa: E402

INT_RE = re.compile(rb"[+-]?[0-9]+\Z")
FLOAT_RE = re.compile(rb"[+-]?(inf|infinity|nan|([0-9]+(\.[0-9]*)?|\.[0-9]+)(e[+-]?[0-9]+)?)\Z", re.I)


@arity(1)
def s_int(it, a, pos):
    v = a[0]
    if is_int(v):
        return v
    if isinstance(v, float):
        return float_to_int(v)
    if isinstance(v, bytes):
        if INT_RE.match(v):
            n = int(v)
            if I64MIN <= n <= I64MAX:
                return n
        raise value_error(v, "valid integer", pos)
    raise type_error(v, "int, float or string", pos)


@arity(1)
def s_float(it, a, pos):
    v = a[0]
    if isinstance(v, float):
        return v
    if is_int(v):
        return float(v)
    if isinstance(v, bytes):
        if FLOAT_RE.match(v):
            return float(v)
        raise value_error(v, "valid integer", pos)
    raise type_error(v, "int, float or string", pos)


@arity(1)
def s_bytes(it, a, pos):
    if not isinstance(a[0], bytes):
        raise type_error(a[0], "string", pos)
    return Arr([Byte(b) for b in a[0]])


def need_strings(a, pos):
    for v in a:
        if not isinstance(v, bytes):
            raise type_error(v, "string", pos)


def split_bytes(s, p):
    if p:
        return s.split(p)
    # An empty separator separates the bytes, with an empty piece at both ends.
    return [b""] + [s[i:i + 1] for i in range(len(s))] + [b""]


@arity(2)
def s_split(it, a, pos):
    need_strings(a, pos)
    return Arr(split_bytes(a[0], a[1]))


@arity(3)
def s_replace(it, a, pos):
    need_strings(a, pos)
    s, p, r = a
    return s.replace(p, r)


@arity(1)
def s_trim(it, a, pos):
    need_strings(a, pos)
    return a[0].strip(b" \t\n\r\x0b\x0c")


@arity(3)
def s_substr(it, a, pos):
    s, b, n = a
    bad = [not isinstance(s, bytes), not is_int(b), not is_int(n)]
    if bad[0]:
        raise type_error(s, "string", pos)
    if bad[1]:
        raise type_error(b, "int", pos)
    if bad[2]:
        raise type_error(n, "int", pos)
    if b < 0 or n < 0 or b + n > len(s):
        return None
    return s[b:b + n]


def check_type(a, pos):
    v, t = a
    if not isinstance(t, bytes):
        raise type_error(t, "string", pos)
    if t.decode("latin-1") not in TYPES:
        raise value_error(t, "valid type", pos)
    return type_name(v).encode() == t


@arity(2)
def s_typecheck(it, a, pos):
    if check_type(a, pos):
        return a[0]
    raise type_error(a[0], a[1].decode(), pos)


@arity(2)
def s_try_typecheck(it, a, pos):
    if check_type(a, pos):
        return None
    return Err(("type error: expected %s, got %s (%s)" % (a[1].decode(), type_name(a[0]), show(a[0])))
               .encode("utf-8", "surrogateescape"), a[0])


@arity(1)
def s_hex_encode(it, a, pos):
    need_strings(a, pos)
    return a[0].hex().encode()


@arity(1)
def s_b64_encode(it, a, pos):
    need_strings(a, pos)
    return b64.b64encode(a[0])


STD = {
    "println": s_println, "print": s_print, "len": s_len, "is_empty": s_is_empty, "push": s_push,
    "pop": s_pop, "sort": s_sort, "contains": s_contains, "type": s_type, "error": s_error,
    "has_error": s_has_error, "to_string": s_to_string, "panic": s_panic, "assert": s_assert,
    "catch": s_catch, "bind": s_bind, "exit": s_exit, "range": s_range, "iter": s_iter, "int": s_int,
    "float": s_float, "bytes": s_bytes, "split": s_split, "replace": s_replace, "trim": s_trim,
    "substr": s_substr, "typecheck": s_typecheck, "try_typecheck": s_try_typecheck,
}


@arity(1)
def s_import_missing(it, a, pos):
    need_strings(a, pos)
    raise HushPanic(pos, "No such file or directory (os error 2)")


STD["import"] = s_import_missing


def make_std():
    d = Dct()
    for n, f in STD.items():
        d.put(n.encode(), Nat("std." + n, f))
    for m, fs in (("hex", {"encode": s_hex_encode}), ("base64", {"encode": s_b64_encode})):
        sub = Dct()
        for n, f in fs.items():
            sub.put(n.encode(), Nat("std.%s.%s" % (m, n), f))
        d.put(m.encode(), sub)
    return d
