"""Generated regular expressions, subjects and replacements (bytes and UTF-8 text), compared with Python's re engine under the leftmost-first rules both document."""
import contextlib
import re
import signal

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang.syntax import str_lit

COUNTS = {"quick": 9000, "thorough": 260000}
RULE = ("a case is one pattern applied to up to 8 subjects (matched, split and replaced), or up to 8 invalid patterns; non-trivial: the pattern has at least 3 elements and "
        "matches some subject without matching the whole of it; each application is one evaluation")
SAMPLE_LABELS = ("bytes mode", "text mode", "UTF-8 subject", "odd bytes", "captures", "named group", "empty matches", "lazy", "counted", "anchored", "alternation", "class", "word boundary",
                 "multi-line", "dot all", "invalid", "references", "no match", "long subject")
ASSUMPTIONS = ["only syntax with the same meaning in Python's re and the documented engine is generated (no case folding, nested or empty repetitions, look-around)"]

CLASSES = {r"\d": "0-9", r"\w": "0-9A-Za-z_", r"\s": " \\t\\n\\r\\x0b\\x0c"}
POSIX = {"[:alpha:]": "A-Za-z", "[:digit:]": "0-9", "[:upper:]": "A-Z", "[:space:]": " \\t\\n\\r\\x0b\\x0c", "[:xdigit:]": "0-9A-Fa-f"}
LITS = list("abcabcabcABxyz012 -_.,/:@#\n\t")
UTF = ["\u00e9", "\u20ac", "\u65e5", "\U0001f600"]


# -- patterns as trees: [kind, ...] -----------------------------------------------------------------
@st.composite
def atom(draw, mode):
    k = draw(st.sampled_from(["lit"] * 6 + ["dot", "class", "class", "perl", "perl", "word", "utf" if mode == "text" else "hex"]))
    if k == "lit":
        return ["lit", draw(st.sampled_from(LITS))]
    if k == "word":
        return ["lit", draw(st.text(alphabet="abc", min_size=2, max_size=3))]
    if k == "dot":
        return ["dot"]
    if k == "perl":
        return ["perl", draw(st.sampled_from([r"\d", r"\w", r"\s", r"\D", r"\W", r"\S"]))]
    if k == "utf":
        return ["lit", draw(st.sampled_from(UTF + ["a"]))]
    if k == "hex":
        return ["hex", draw(st.integers(0, 255))]
    items = draw(st.lists(st.sampled_from(["a", "b", "c", "x", "0", "-", ".", " ", "a-c", "b-y", "0-5", "A-Z", r"\d", r"\w", r"\s", "[:alpha:]", "[:digit:]", "[:space:]", "]", "^", "\n"]
                                          + (["\u00e9", "\u00e9-\u65e5"] if mode == "text" else [r"\x80-\xff"])), min_size=1, max_size=3))
    return ["class", draw(st.booleans()) and draw(st.booleans()), items]


def nullable(n):
    k = n[0]
    if k == "seq":
        return all(nullable(x) for x in n[1])
    if k == "alt":
        return any(nullable(x) for x in n[1])
    if k == "rep":
        return n[2] == 0 or nullable(n[1])
    if k in ("group", "named", "nc"):
        return nullable(n[-1])
    return k in ("bol", "eol", "wordb", "nwordb", "start", "end", "empty")


def size(n):
    k = n[0]
    if k in ("seq", "alt"):
        return sum(size(x) for x in n[1])
    if k == "rep":
        return 1 + size(n[1])
    if k in ("group", "named", "nc"):
        return 1 + size(n[-1])
    return 1


@st.composite
def tree(draw, mode, d=3, inrep=0):
    k = draw(st.sampled_from(["atom"] * 4 + (["seq"] * 5 + ["alt"] * 2 + ["rep"] * 4 + ["group"] * 3 + ["nc", "assert"] if d > 0 else [])))
    if k == "atom":
        return draw(atom(mode))
    if k == "assert":
        opts = ["bol", "eol", "start", "end"] + (["wordb", "nwordb"] if mode == "bytes" else [])
        return ["seq", [[draw(st.sampled_from(opts))], draw(tree(mode, d - 1, inrep))]]
    if k == "seq":
        return ["seq", draw(st.lists(tree(mode, d - 1, inrep), min_size=2, max_size=4))]
    if k == "alt":
        xs = draw(st.lists(tree(mode, d - 1, inrep), min_size=2, max_size=3))
        if not inrep and draw(st.integers(0, 5)) == 0:
            xs.insert(draw(st.integers(0, len(xs))), ["empty"])
        return ["alt", xs]
    if k == "rep":
        if inrep > 1:
            return draw(atom(mode))
        x = draw(tree(mode, d - 1, inrep + 1))
        if nullable(x):
            # Repeating what may be empty means different things in different engines.
            x = draw(atom(mode))
        lo, hi = draw(st.sampled_from([(0, None), (0, None), (1, None), (1, None), (0, 1), (0, 1), (2, 2), (1, 3), (0, 2), (2, None), (3, 5), (0, 0), (1, 1)]))
        return ["rep", x, lo, hi, draw(st.integers(0, 3)) == 0]
    if k == "group":
        if draw(st.integers(0, 3)) == 0:
            return ["named", draw(st.sampled_from(["n", "x1", "long_name"])), draw(tree(mode, d - 1, inrep))]
        return ["group", draw(tree(mode, d - 1, inrep))]
    return ["nc", draw(tree(mode, d - 1, inrep))]


def lit(c):
    return re.escape(c) if c not in "\n\t" else {"\n": "\\n", "\t": "\\t"}[c]


def rust_lit(c):
    if c in "\\.+*?()|[]{}^$#&-~":
        return "\\" + c
    return c


class Pattern:
    """The two spellings of a tree."""

    def __init__(self, t, mode, multi, dotall):
        self.mode, self.labels = mode, set()
        self.names = set()
        self.groups = 0
        flags = ("m" if multi else "") + ("s" if dotall else "") + ("-u" if mode == "bytes" else "")
        self.multi, self.dotall = multi, dotall
        r, p = self.node(t)
        self.rust = ("(?%s)" % flags if flags else "") + r
        self.py = p
        if multi:
            self.labels.add("multi-line")
        if dotall:
            self.labels.add("dot all")

    def compile(self):
        fl = (re.M if self.multi else 0)
        if self.mode == "bytes":
            return re.compile(self.py.encode("latin-1"), fl)
        return re.compile(self.py, fl)

    def no(self, s):
        """A negated class: invalid UTF-8 is never part of it in text mode."""
        return "[^%s%s]" % (s, "\udc80-\udcff" if self.mode == "text" else "")

    def node(self, n):
        k = n[0]
        if k == "lit":
            return "".join(rust_lit(c) for c in n[1]), "".join(lit(c) for c in n[1])
        if k == "hex":
            return "\\x%02x" % n[1], "\\x%02x" % n[1]
        if k == "dot":
            if self.dotall:
                return ".", (self.no("") if self.mode == "text" else "[\\x00-\\xff]")
            return ".", self.no("\\n")
        if k == "perl":
            c = n[1]
            if c in CLASSES:
                s = CLASSES[c]
                if self.mode == "text" and c == r"\w":
                    s = "\\w"
                return c, "[%s]" % s
            s = CLASSES[c.lower()]
            if self.mode == "text" and c == r"\W":
                s = "\\w"
            return c, self.no(s)
        if k == "class":
            self.labels.add("class")
            r = p = ""
            for i in n[2]:
                if i in CLASSES:
                    r += i
                    p += "\\w" if self.mode == "text" and i == r"\w" else CLASSES[i]
                elif i in POSIX:
                    r += "[%s]" % i[1:-1] if False else i
                    p += POSIX[i]
                elif i == "\n":
                    r += "\\n"
                    p += "\\n"
                elif len(i) == 1:
                    r += "\\" + i if i in "-]^[&~" else i
                    p += "\\" + i if i in "-]^[&~" else i
                else:
                    r += i
                    p += i
            return "[%s%s]" % ("^" if n[1] else "", r), self.no(p) if n[1] else "[%s]" % p
        if k == "seq":
            xs = [self.node(x) if x[0] != "alt" else self.wrap(x) for x in n[1]]
            return "".join(x[0] for x in xs), "".join(x[1] for x in xs)
        if k == "alt":
            self.labels.add("alternation")
            xs = [self.node(x) for x in n[1]]
            return "|".join(x[0] for x in xs), "|".join(x[1] for x in xs)
        if k == "rep":
            _, x, lo, hi, lazy = n
            r, p = self.node(x) if x[0] in ("dot", "perl", "class", "hex", "group", "named", "nc") or (x[0] == "lit" and len(x[1]) == 1) else self.wrap(x)
            q = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((lo, hi))
            if q is None:
                self.labels.add("counted")
                q = "{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi is None else hi)
            if lazy:
                self.labels.add("lazy")
                q += "?"
            return r + q, p + q
        if k == "group":
            self.groups += 1
            self.labels.add("captures")
            r, p = self.node(n[1])
            return "(%s)" % r, "(%s)" % p
        if k == "named":
            if n[1] in self.names:
                return self.node(["group", n[2]])
            self.names.add(n[1])
            self.groups += 1
            self.labels.add("named group")
            r, p = self.node(n[2])
            return "(?P<%s>%s)" % (n[1], r), "(?P<%s>%s)" % (n[1], p)
        if k == "nc":
            return self.wrap(n[1])
        if k == "empty":
            return "", ""
        self.labels.add("word boundary" if k in ("wordb", "nwordb") else "anchored")
        return {"bol": ("^", "^" if self.multi else "\\A"), "eol": ("$", "$" if self.multi else "\\Z"), "start": ("\\A", "\\A"), "end": ("\\z", "\\Z"),
                "wordb": ("\\b", "\\b"), "nwordb": ("\\B", "(?:(?<!\\w)(?!\\w)|(?<=\\w)(?=\\w))")}[k]

    def wrap(self, x):
        r, p = self.node(x)
        return "(?:%s)" % r, "(?:%s)" % p


# -- cases ------------------------------------------------------------------------------------------
subject_bytes = st.integers(0, 4).flatmap(lambda k: [
    st.text(alphabet="abc", max_size=12), st.text(alphabet="aAb0 -_.,/\n:xyz", max_size=14), st.binary(max_size=12).map(lambda b: b.decode("latin-1")),
    st.text(alphabet="ab\xff\x80\n", max_size=10), st.sampled_from(["", "a", "aaaaaaaa", "abcabcabc", "\n", "a\nb\nc\n", "  ", "a,b,,c,", "x1 y2"])][k])
subject_text = st.integers(0, 3).flatmap(lambda k: [
    st.text(alphabet="abc", max_size=12), st.text(alphabet="aAb0 -_.,/\n:xyz", max_size=14), st.text(alphabet="ab0 \u00e9\u20ac\u65e5\U0001f600", max_size=10),
    st.text(alphabet="ab\u00e9\udcff\udc80\udcc3", max_size=8)][k]).map(lambda s: s.encode("utf-8", "surrogateescape").decode("latin-1"))
repl = st.one_of(st.sampled_from(["", "X", "<$0>", "$1", "[$1|$2]", "${1}x", "$1x", "$n", "${n}-", "$$", "$$1", "$", "a$", "$ 1", "${", "${1", "$9", "${long_name}$x1", "\\1", "&", "$0$0", "$01", "${0}",
                                  "\n", "\xff", "\xc3\xa9", "$-", "${}", "${ }", "a$$b$1c", "$_", "$1_"]), st.text(alphabet="ab$01{}n", max_size=8))
INVALID = ["(", ")", "[a", "*", "+a", "?", "a{2,1}", "\\", "(?P<n>", "(?P<>a)", "[b-a]", "(a)\\1", "a(?=b)", "(?!a)", "(?<=a)b", "(?P<n>a)(?P<n>b)", "\\p{Greek}", "a{1", "x{1000}{1000}{1000}", "(?z)a", "\\q", "[]",
           "(?", "a|*", "\\xZZ", "[\\d-z]", "(?i)a", "\xff", "\xc3", "a\xffb", "(?:", "{1}"]


def utf8_subject(s):
    return not s.isascii()


@st.composite
def case_s(draw):
    mode = draw(st.sampled_from(["bytes", "text"]))
    t = draw(tree(mode))
    return {"mode": mode, "tree": t, "m": draw(st.integers(0, 4)) == 0, "s": draw(st.integers(0, 4)) == 0,
            "subjects": draw(st.lists(st.tuples(subject_bytes if mode == "bytes" else subject_text, repl).map(list), min_size=1, max_size=8)), "long": draw(st.sampled_from([0] * 9 + [300, 3000]))}


def strategy(tier):
    bad = st.lists(st.integers(0, len(INVALID) - 1), min_size=1, max_size=8).map(lambda xs: {"invalid": xs})
    return st.integers(0, 19).flatmap(lambda k: bad if k == 0 else case_s())


class Slow(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Python's engine backtracks, exponentially on some patterns: give those up."""
    def stop(*_):
        raise Slow
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def matches(rx, s):
    """Leftmost matches that do not overlap; an empty one right after another match is none."""
    out, pos, last = [], 0, None
    while pos <= len(s):
        m = rx.search(s, pos)
        if not m:
            break
        a, b = m.span()
        if a == b:
            pos = b + 1
            if b == last:
                continue
        else:
            pos = b
        last = b
        out.append(m)
    return out


def reference(t, i):
    """Parses a reference of a replacement at a $: (name or None, end)"""
    if i + 1 >= len(t):
        return None, i
    if t[i + 1] == "$":
        return "$", i + 2
    if t[i + 1] == "{":
        j = t.find("}", i + 2)
        if j < 0:
            return None, i
        return ("ref", t[i + 2:j]), j + 1
    j = i + 1
    while j < len(t) and (t[j].isascii() and (t[j].isalnum() or t[j] == "_")):
        j += 1
    if j == i + 1:
        return None, i
    return ("ref", t[i + 1:j]), j


def expand(m, t, enc):
    out = enc("")
    i = 0
    while i < len(t):
        if t[i] == "$":
            r, j = reference(t, i)
            if r is None:
                out += enc("$")
                i += 1
                continue
            if r == "$":
                out += enc("$")
            else:
                n = r[1]
                try:
                    v = m.group(int(n)) if n.isascii() and n.isdigit() else m.group(n)
                except (IndexError, KeyError):
                    v = None
                out += v if v is not None else enc("")
            i = j
            continue
        out += enc(t[i])
        i += 1
    return out


def build(case):
    """(text, expected output, labels, n, interesting)"""
    if "invalid" in case:
        text, exp = "", ""
        for i in case["invalid"]:
            text += "let e = std.regex(%s)\nstd.println(std.type(e), if std.type(e) == \"error\" then e.description else \"\" end)\n".replace("let e", "let e" if not text else "e") % str_lit(INVALID[i])
            exp += "error\tinvalid regex\n"
        return text, exp.encode(), {"invalid"}, len(case["invalid"]), True, False
    p = Pattern(case["tree"], case["mode"], case["m"], case["s"])
    rx = p.compile()
    labels = set(p.labels)
    labels.add(case["mode"] + " mode")
    text = "let r = std.regex(%s)\n" % str_lit(p.rust.encode("utf-8").decode("latin-1"))
    text += "function pieces(a) std.print(std.len(a))\nfor x in std.iter(a) do std.print(\"\", std.hex.encode(x)) end\nstd.println() end\n"
    exp = b""
    n = 0
    interesting = False
    slow = False
    for raw, rep in case["subjects"]:
        if case["mode"] == "bytes":
            s = raw.encode("latin-1")
            enc = lambda x: x.encode("latin-1")  # noqa: E731
            back = lambda x: x  # noqa: E731
        else:
            s = raw.encode("latin-1").decode("utf-8", "surrogateescape")
            enc = lambda x: x  # noqa: E731
            back = lambda x: x.encode("utf-8", "surrogateescape")  # noqa: E731
        if case["long"]:
            if size(case["tree"]) > 6 or len(s) == 0:
                continue
            s = s * (case["long"] // len(s))
            if case["mode"] == "text":
                # Odd bytes may form characters where the copies meet.
                s = back(s).decode("utf-8", "surrogateescape")
            labels.add("long subject")
        if nullable(case["tree"]) and case["mode"] == "text" and utf8_subject(raw):
            # Between the bytes of a character an empty match is unspecified.
            if not may_be_empty_ok(s):
                continue
        ms = matches(rx, s)
        if any(m.start() == m.end() for m in ms):
            labels.add("empty matches")
        if not ms:
            labels.add("no match")
        if utf8_subject(raw):
            labels.add("odd bytes" if case["mode"] == "bytes" or any("\udc80" <= c <= "\udcff" for c in s) else "UTF-8 subject")
        if size(case["tree"]) > 2 and any(m.span() != (0, len(s)) for m in ms):
            interesting = True
        subj = str_lit(back(s).decode("latin-1"))
        pieces, last = [], 0
        done, lastb = [], 0
        rep_s = rep if case["mode"] == "bytes" else rep.encode("latin-1").decode("utf-8", "surrogateescape")
        if "$" in rep:
            labels.add("references")
        for m in ms:
            pieces.append(s[last:m.start()])
            done.append(s[last:m.start()])
            done.append(expand(m, rep_s, enc))
            last = m.end()
        pieces.append(s[last:])
        done.append(s[last:])
        text += "std.println(r.match(%s))\npieces(r.split(%s))\nstd.println(std.hex.encode(r.replace(%s, %s)))\n" % (subj, subj, subj, str_lit(rep))
        exp += b"true\n" if ms else b"false\n"
        exp += b"%d" % len(pieces) + b"".join(b"\t" + back(x).hex().encode() for x in pieces) + b"\n"
        exp += back(enc("").join(done)).hex().encode() + b"\n"
        n += 3
    return text, exp, labels, n, interesting, slow


def may_be_empty_ok(s):
    return all(ord(c) < 128 for c in s)


def show(case):
    try:
        with limit(2):
            return build(case)[0][:3000]
    except Slow:
        return repr(case)


def evaluate(case, rt):
    try:
        with limit(2):
            text, exp, labels, n, nt, _ = build(case)
    except Slow:
        return Verdict(nontrivial=False, labels=["skipped: too slow for the reference engine"])
    if not n:
        return Verdict(nontrivial=False, labels=["skipped: no usable subject"])
    o = rt.script(text.encode("latin-1"))
    why = None
    if o.hang or o.rc != 0 or o.err:
        why = "hang" if o.hang else "exit status %r" % o.rc
    elif o.out != exp:
        a, b = o.out.split(b"\n"), exp.split(b"\n")
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        why = "line %d: %r instead of %r" % (k + 1, a[k:k + 1], b[k:k + 1])
        if "invalid" not in case:
            why += " (%s of subject %d)" % (("match", "split", "replace")[k % 3], k // 3)
    labels = sorted(labels)
    if why:
        return fail({"why": why, "script": text[:3000], "actual": o.brief()}, labels=labels, nontrivial=nt, hang=o.hang, n=n)
    return Verdict(labels=labels, nontrivial=nt, n=n)
