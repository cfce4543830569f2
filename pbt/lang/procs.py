"""Blocks of commands: generation, rendering, and an exact model of pipelines, redirections and failures.

   block    {"cmds": [pipeline...]}                     pipelines separated by ;
   pipeline [stage...]
   stage    {"m": [mode, arg...], "r": [redirection...], "t": bool (marked with ?), "bad": null | how it cannot start}
   redirection  [">", fd, file] [">>", fd, file] ["dup", fd, fd2] ["<", file] ["<<", text]
The commands are modes of the helper (pbt/helper/hx.c), whose semantics is modelled in `events`. A stage that is not the
first of its pipeline always reads all of its input before it writes: stages of a pipeline act one after another."""
import functools
import os
import resource
import zlib

from hypothesis import strategies as st

FILES = ["fa", "fb", "fc", "fd"]
OTHERS = ["a b", "st*r", "2", "-x", "sub/fe", "q'q", "p%q", "$v", "x\ny"]
# Symbolic links, and what they lead to.
LINKS = {"ln1": "fa", "ln2": "sub/fe", "ln3": "fb"}
SIGNALS = [1, 2, 3, 6, 9, 10, 11, 13, 14, 15, 4, 8, 24, 31, 34, 35, 63, 64]
UNSTARTED = {"missing": ("nosuch", "No such file or directory (os error 2)"),
             "path": ("./no/such", "No such file or directory (os error 2)"),
             "noexec": ("./noexec", "Permission denied (os error 13)"),
             "dir": ("./dir", "Permission denied (os error 13)"),
             "notdir": ("./noexec/x", "Not a directory (os error 20)"),
             "empty": ("''", "No such file or directory (os error 2)"),
             "nul": ("'n\\0o'", "nul byte found in provided data"),
             "part": ("hx'y'", "No such file or directory (os error 2)")}
BUILTINS = [  # source, failure
    ("alias", "alias is not implemented"), ("alias x='y'", "alias is not implemented"),
    ("cd .", None), ("cd dir/..", None), ("cd 'sub/../dir/..'", None), ("cd no/such", "No such file or directory (os error 2)"),
    ("cd noexec", "Not a directory (os error 20)"), ("cd ''", "No such file or directory (os error 2)"),
    ("exec nosuch a", "No such file or directory (os error 2)"), ("exec0 ./noexec z", "Permission denied (os error 13)"),
    ("exec0 ./no/such z q", "No such file or directory (os error 2)"),
    ("spawn0 nosuch hx", "No such file or directory (os error 2)"), ("spawn0 ./dir hx", "Permission denied (os error 13)")]
ENOENT = "No such file or directory (os error 2)"
EISDIR = "Is a directory (os error 21)"
READERS = ("cat", "up", "rev", "tag", "count", "catexit", "drain", "hexcat", "errcat", "d", "argsin")


@functools.lru_cache(maxsize=40)
def lines(n, seed):
    k = n // 9 + 1
    return "".join("%08x\n" % (i & 0xffffffff) for i in range(seed, seed + k)).encode()[:n]


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


def events(m, stdin):
    """What a command does: [(fd, bytes)...], status."""
    k = m[0]
    if k == "d":
        return events(m[1:], b"")
    if k == "out":
        return [(1, unhex(m[1]))], 0
    if k == "err":
        return [(2, unhex(m[1]))], 0
    if k == "both":
        return [(1, unhex(m[1])), (2, unhex(m[2]))], 0
    if k == "lines":
        return [(int(m[1]), lines(int(m[2]), int(m[3])))], 0
    if k == "weave":
        a, b, s = int(m[1]), int(m[2]), int(m[3])
        p, q = lines(a, s), lines(b, s + 1000000)
        ev = []
        for i in range(0, max(a, b), 1000):
            ev += [(1, p[i:i + 1000]), (2, q[i:i + 1000])]
        return ev, 0
    if k == "say":
        return [(1, unhex(m[1]))], int(m[2])
    if k == "exit":
        return [], int(m[1])
    if k == "kill":
        return [], 128 + int(m[1])
    if k == "cat":
        return [(1, stdin)], 0
    if k == "errcat":
        return [(2, stdin)], 0
    if k == "hexcat":
        return [(1, (stdin.hex() or "-").encode() + b"\n")], 0
    if k == "up":
        return [(1, stdin.upper())], 0
    if k == "rev":
        return [(1, stdin[::-1])], 0
    if k == "tag":
        return [(1, m[1].encode() + b":" + stdin)], 0
    if k == "count":
        return [(1, b"%d %08x\n" % (len(stdin), zlib.crc32(stdin)))], 0
    if k == "catexit":
        return [(1, stdin)], int(m[1])
    if k == "drain":
        return [], int(m[1])
    raise AssertionError(m)


# -- generation ------------------------------------------------------------------------------------
def hexes(max_size=12):
    return st.one_of(st.binary(max_size=max_size), st.sampled_from([b"", b"\n", b"a\n", b"x", b"line 1\nline 2\n", b"\0", b"\xff\xfe\n"])
                     ).map(lambda b: b.hex() or "-")


SIZES = [0, 1, 2, 100, 511, 512, 513, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 70000, 131072, 200000]
statuses = st.sampled_from([1, 1, 2, 3, 7, 42, 126, 127, 128, 129, 137, 254, 255])


class Mix:
    """What commands a generated block may have (weights)."""

    def __init__(self, data=5, big=1, fail=2, kill=1, bad=1, redir=2, files=2, stdin=1, tries=3, stages=3, cmds=4, sizes=None):
        self.data, self.big, self.fail, self.kill, self.bad = data, big, fail, kill, bad
        self.redir, self.files, self.stdin, self.tries = redir, files, stdin, tries
        self.stages, self.cmds = stages, cmds
        self.sizes = sizes or SIZES


@st.composite
def source_mode(draw, mix):
    kinds = (["out"] * mix.data + ["err"] * mix.data + ["both"] * mix.data + ["lines", "weave"] * mix.big
             + ["say", "exit"] * mix.fail + ["kill"] * mix.kill + ["cat", "up", "hexcat"] * mix.stdin)
    k = draw(st.sampled_from(kinds))
    if k in ("out", "err"):
        return [k, draw(hexes())]
    if k == "both":
        return [k, draw(hexes()), draw(hexes())]
    if k == "lines":
        return [k, str(draw(st.integers(1, 2))), str(draw(st.sampled_from(mix.sizes))), str(draw(st.integers(0, 99)))]
    if k == "weave":
        return [k, str(draw(st.sampled_from(mix.sizes))), str(draw(st.sampled_from(mix.sizes))), str(draw(st.integers(0, 99)))]
    if k == "say":
        return [k, draw(hexes()), str(draw(statuses))]
    if k == "exit":
        return [k, str(draw(st.one_of(st.just(0), statuses)))]
    if k == "kill":
        return [k, str(draw(st.sampled_from(SIGNALS)))]
    return [k]


@st.composite
def filter_mode(draw, mix):
    kinds = (["cat", "up", "rev", "tag", "count", "hexcat"] * 3 + ["catexit", "drain"] * mix.fail + ["errcat"] + ["d"] * 2)
    k = draw(st.sampled_from(kinds))
    if k == "tag":
        return [k, draw(st.sampled_from(["T", "zz", "q1"]))]
    if k in ("catexit", "drain"):
        return [k, str(draw(st.one_of(st.just(0), statuses)))]
    if k == "d":
        m = draw(source_mode(mix))
        return ["d"] + m if m[0] not in READERS else m
    return [k]


@st.composite
def redirection(draw, mix, files):
    k = draw(st.integers(0, 9))
    f = draw(st.sampled_from(files))
    fd = draw(st.sampled_from([1, 1, 2]))
    if k < 3 and mix.files:
        return [">", fd, f]
    if k < 5 and mix.files:
        return [">>", fd, f]
    if k < 8:
        return ["dup", fd, draw(st.integers(1, 2))]
    if k == 8 and mix.files:
        return ["<", f]
    return ["<<", draw(st.sampled_from(["", "x", "here", "a b", "two\nlines", "\xe9", "*", "q'q"]))]


@st.composite
def stage(draw, mix, first, files, allow_redir=True):
    s = {"m": draw(source_mode(mix) if first else filter_mode(mix)), "r": [],
         "t": draw(st.integers(0, 9)) < mix.tries, "bad": None}
    if allow_redir and mix.redir and draw(st.integers(0, 9)) < mix.redir:
        s["r"] = draw(st.lists(redirection(mix, files), min_size=1, max_size=3))
    if mix.bad and draw(st.integers(0, 29)) < mix.bad:
        s["bad"] = draw(st.sampled_from(sorted(UNSTARTED)))
    return s


@st.composite
def pipeline(draw, mix, max_stages=None):
    n = draw(st.sampled_from([1, 1] + list(range(1, (max_stages or mix.stages) + 1))))
    return [draw(stage(mix, i == 0, FILES)) for i in range(n)]


def blocks(mix):
    return st.lists(pipeline(mix), min_size=1, max_size=mix.cmds).map(lambda cs: {"cmds": cs})


@st.composite
def many(draw, mix):
    """Many small pipelines."""
    n = draw(st.sampled_from([8, 9, 10, 11, 16, 17, 20, 31, 32, 33, 34, 50, 63, 64, 65, 66]))
    few = draw(st.lists(pipeline(mix), min_size=1, max_size=5))
    return [few[(i * i + i // 3) % len(few)] for i in range(n - 1)] + [draw(pipeline(mix))]


# -- rendering -------------------------------------------------------------------------------------
def word(s):
    if s and all(c.isalnum() or c in "._/-" for c in s) and not s.isdigit():
        return s
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def dq(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\0", "\\0").replace("$", "\\$") + '"'


def render_redir(r, form=None):
    """A redirection; `form` is how its word is written ("lit", "dq", or the name of a variable holding it)."""
    def w(s):
        if form == "dq":
            return dq(s)
        return word(s) if form in (None, "lit") else form
    if r[0] in (">", ">>"):
        return ("" if r[1] == 1 else str(r[1])) + r[0] + " " + w(r[2])
    if r[0] == "dup":
        return "%d>%d" % (r[1], r[2])
    if r[0] == "badfd":
        return r[1]
    return r[0] + " " + w(r[1])


def source(block, start, sep=" "):
    """Text of the commands of a block (without braces), and each stage's program offset from `start`."""
    text, where = "", []
    for i, pl in enumerate(block["cmds"]):
        if i:
            text += " ;" + sep
        row = []
        for j, s in enumerate(pl):
            if j:
                text += " |" + sep
            row.append(start + len(text))
            if s.get("bi") is not None:
                text += BUILTINS[s["bi"]][0] + (" ?" if s["t"] else "")
                continue
            text += s["pre"] if s.get("pre") else UNSTARTED[s["bad"]][0] if s["bad"] else "hx"
            text += "".join(" " + word(a) for a in s["m"])
            text += "".join(" " + render_redir(r, f) for r, f in zip(s["r"], s.get("rf") or [None] * len(s["r"])))
            if s["t"]:
                text += " ?"
        where.append(row)
    return text, where


def line_col(text, off):
    b = text[:off]
    return b.count("\n") + 1, len(b) - (b.rfind("\n") + 1)


# -- the model -------------------------------------------------------------------------------------
class Pipe:
    """A pipe or terminal-like stream: bytes in order; broken if nobody can read it."""

    def __init__(self, name):
        self.name, self.data, self.broken = name, bytearray(), False

    def write(self, b):
        self.data += b


class Handle:
    """An opened file, with its own offset unless appending."""

    def __init__(self, world, name, append):
        self.world, self.name, self.append, self.off = world, name, append, 0
        self.broken = False

    def write(self, b):
        f = self.world.files[self.name]
        if self.append:
            f += b
        else:
            if len(f) < self.off:
                f += b"\0" * (self.off - len(f))
            f[self.off:self.off + len(b)] = b
            self.off += len(b)


class Panics(Exception):
    def __init__(self, msg):
        self.msg = msg


class World:
    """Files, the script's streams, and what happened."""

    def __init__(self, files=None, stdin=b""):
        self.files = {k: bytearray(v) for k, v in (files or {}).items()}
        self.stdin = stdin
        self.out, self.err = Pipe("out"), Pipe("err")
        self.racy = False
        self.labels = set()
        self.ran = 0

    def open(self, s, stdin, h1, h2):
        """Applies the redirections of a stage: (stdin, stdout, stderr, failure)."""
        own_in = False
        for r in s["r"]:
            if r[0] in (">", ">>"):
                name = LINKS.get(r[2], r[2])
                if r[2] == "dir":
                    return stdin, h1, h2, EISDIR, own_in
                if r[2].startswith("no/"):
                    return stdin, h1, h2, ENOENT, own_in
                if r[0] == ">" or name not in self.files:
                    self.files[name] = bytearray()
                h = Handle(self, name, r[0] == ">>")
            elif r[0] == "badfd":
                raise Panics("unsupported file descriptor (%d)" % r[2])
            elif r[0] == "dup":
                h = h1 if r[2] == 1 else h2
            elif r[0] == "<":
                name = LINKS.get(r[1], r[1])
                if name not in self.files:
                    return stdin, h1, h2, ENOENT, own_in
                stdin, own_in = ("file", name), True
                continue
            else:
                stdin, own_in = ("text", r[1].encode("latin-1") + b"\n"), True
                continue
            if r[1] == 1:
                h1 = h
            else:
                h2 = h
        return stdin, h1, h2, None, own_in

    def pipeline(self, stages, out, err):
        """Failures of a pipeline: [(description, status) or None per stage]."""
        n = len(stages)
        if stages[0].get("bi") is not None:
            why = BUILTINS[stages[0]["bi"]][1]
            return [(why, 127) if why else None]
        pipes = [Pipe("p%d" % i) for i in range(n - 1)]
        opened = [None] * n
        # Files opened by several stages, or read by one and written by another: no defined order.
        used = {}
        for i, s in enumerate(stages):
            for r in s["r"]:
                if r[0] in (">", ">>", "<"):
                    f = r[2] if r[0] != "<" else r[1]
                    f = LINKS.get(f, f)
                    if used.setdefault(f, i) != i:
                        self.racy = True
        for i in reversed(range(n)):
            s = stages[i]
            default_in = ("script",) if i == 0 else ("pipe", pipes[i - 1])
            sin, h1, h2, why, own_in = self.open(s, default_in, out if i == n - 1 else pipes[i], err)
            if why is None and s["bad"]:
                why = UNSTARTED[s["bad"]][1]
            opened[i] = (sin, h1, h2, why)
            if i and (why is not None or own_in):
                pipes[i - 1].broken = True
        res = [None] * n
        group, writers = 0, {}
        for i, s in enumerate(stages):
            sin, h1, h2, why = opened[i]
            # This stage acts after the one before only if it waits for the end of its pipe.
            waits = i > 0 and sin[0] == "pipe" and opened[i - 1][3] is None and any(
                h is pipes[i - 1] for h in opened[i - 1][1:3]) and (s["m"][0] in READERS)
            if i and not waits:
                group += 1
            if why is not None:
                res[i] = (why, 127)
                continue
            reads = s["m"][0] in READERS
            data = b""
            if reads:
                if sin[0] == "script":
                    data, self.stdin = self.stdin, b""
                elif sin[0] == "pipe":
                    data = bytes(sin[1].data)
                elif sin[0] == "file":
                    data = bytes(self.files[sin[1]])
                else:
                    data = sin[1]
            ev, status = events(s["m"], data)
            for fd, b in ev:
                h = h1 if fd == 1 else h2
                if not b:
                    continue
                if h.broken:
                    status = 141
                    self.labels.add("broken pipe")
                    break
                h.write(b)
                if isinstance(h, Pipe):
                    if writers.setdefault(h.name, group) != group:
                        self.racy = True
            if status:
                res[i] = ("command returned non-zero", status)
        return res

    def block(self, block, out=None, err=None):
        """Failures per pipeline that ran, and how many ran."""
        out, err = out or self.out, err or self.err
        failures, ran = [], 0
        for i, pl in enumerate(block["cmds"]):
            ran += 1
            self.ran = ran - 1
            res = self.pipeline(pl, out, err)
            bad = [(j, r) for j, r in enumerate(res) if r]
            if bad:
                failures.append((i, bad))
            if any(not pl[j]["t"] for j, _ in bad):
                break
        return failures, ran


REPORT = """function repc(d, c)
	if std.type(c) == "array" then
		let s = d ++ "["
		for x in std.iter(c) do s = s ++ repc(x.description, x.context) ++ "," end
		return s ++ "]"
	end
	d ++ "(" ++ std.to_string(c.status) ++ "@" ++ c.pos ++ ")"
end
function rep(v)
	if std.type(v) != "error" then return std.type(v) end
	if std.type(v.context) == "dict" and std.contains(v.context, "error") then
		return repc(v.description, v.context.error)
	end
	repc(v.description, v.context)
end
"""


def report(failures, where, text, path="t.hsh", ok="nil"):
    """What rep() prints for the result of a block."""
    def pos(off):
        l, c = line_col(text, off)
        return "%s (line %d, column %d)" % (path, l, c)

    def one(i, j, r):
        return "%s(%d@%s)" % (r[0], r[1], pos(where[i][j]))

    def pipe(i, bad):
        if len(bad) == 1:
            return one(i, *bad[0])
        return "Some commands failed in the pipeline[%s]" % "".join(one(i, j, r) + "," for j, r in bad)
    if not failures:
        return ok
    if len(failures) == 1:
        return pipe(*failures[0])
    return "Some commands failed in the block[%s]" % "".join(pipe(i, bad) + "," for i, bad in failures)


# -- comparing ------------------------------------------------------------------------------------
def setup_files(d):
    os.mkdir(os.path.join(d, "dir"))
    os.mkdir(os.path.join(d, "sub"))
    for l, to in LINKS.items():
        os.symlink(to, os.path.join(d, l))
    with open(os.path.join(d, "noexec"), "wb") as f:
        f.write(b"x\n")


def compare(text, o, exp, w, rc=0):
    if o.hang:
        return "hang"
    if o.rc != rc:
        return "exit status %r instead of %r" % (o.rc, rc)
    if o.out != exp:
        k = next((i for i, (a, b) in enumerate(zip(o.out, exp)) if a != b), min(len(o.out), len(exp)))
        return "standard output differs at byte %d of %d (actual: %d bytes): %r instead of %r" % (
            k, len(exp), len(o.out), o.out[max(0, k - 40):k + 40], exp[max(0, k - 40):k + 40])
    if o.err != bytes(w.err.data):
        return "standard error is %r instead of %r" % (o.err[:200], bytes(w.err.data)[:200])
    return None


def compare_files(d, w):
    for f, c in w.files.items():
        try:
            with open(os.path.join(d, f), "rb") as fh:
                got = fh.read()
        except OSError as e:
            return "file %s: %s" % (f, e)
        if got != bytes(c):
            return "file %s holds %r instead of %r (%d and %d bytes)" % (f, got[:100], bytes(c[:100]), len(got), len(c))
    for l, to in LINKS.items():
        if not os.path.islink(os.path.join(d, l)) or os.readlink(os.path.join(d, l)) != to:
            return "the link %s was replaced" % l
    for f in FILES + OTHERS:
        if f not in w.files and os.path.exists(os.path.join(d, f)):
            return "file %s was created" % f
    return None


def few_descriptors():
    """A leak of file descriptors shows soon."""
    resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))
