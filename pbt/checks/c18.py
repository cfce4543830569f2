"""Generated sequences of redirections on commands that read and write known bytes, against a model of files, offsets and streams."""
import os

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import procs as P
from lang.syntax import str_lit

COUNTS = {"quick": 4500, "thorough": 130000}
RULE = ("a case is a script of 1 to 4 command, capture or async blocks with redirections; non-trivial: some command that can "
        "start has a redirection; each command is one evaluation")
ASSUMPTIONS = ["outputs whose order is not defined (stages of one pipeline sharing a file or stream) are not compared"]
SAMPLE_LABELS = ("input file", "here string", "append", "streams merged", "several redirections", "cannot open", "panic", "variable target", "captured")
BASE = P.Mix(data=4, big=1, fail=1, kill=0, bad=1, redir=0, files=0, stdin=3, tries=6, stages=2, cmds=4,
             sizes=[0, 1, 100, 4096, 8193, 65537, 100000])
NAMES = P.FILES + P.FILES + P.OTHERS + sorted(P.LINKS)
HERE = ["a\n", "a\n\n", "\n\n", "\n\n\n", " ", "  x  ", "\r\n", "\na", "", "x", "here", "a b", "two\nlines", "\xe9\xff", "*", "q'q", 'd"q', "$x", "~/x", "\\n", "tab\t", "\n", "x\0y", "%", "# no", "{ hx }"]


@st.composite
def redirection(draw):
    k = draw(st.integers(0, 24))
    f = draw(st.sampled_from(NAMES))
    fd = draw(st.sampled_from([1, 1, 2]))
    if k < 6:
        return [">", fd, f]
    if k < 11:
        return [">>", fd, f]
    if k < 16:
        return ["dup", fd, draw(st.integers(1, 2))]
    if k < 19:
        return ["<", f]
    if k < 23:
        b = draw(st.integers(0, 30))
        if b == 0:
            return ["<<", P.lines(draw(st.sampled_from([4095, 65534, 65535, 65536, 200000])), 3).decode()]
        return ["<<", draw(st.one_of(st.sampled_from(HERE), st.text(alphabet="ab \n\t", max_size=5), st.binary(max_size=5).map(lambda x: x.decode("latin-1"))))]
    return [draw(st.sampled_from([">", ">>"])), fd, draw(st.sampled_from(["dir", "no/x"]))]


@st.composite
def cases(draw):
    bs = []
    for _ in range(draw(st.integers(1, 4))):
        b = draw(P.blocks(BASE))
        for pl in b["cmds"]:
            for s in pl:
                if draw(st.integers(0, 5)):
                    s["r"] = draw(st.lists(redirection(), min_size=1, max_size=5))
                    s["rf"] = [draw(st.sampled_from(["lit", "lit", "dq", "var", "part"])) for _ in s["r"]]
        b["how"] = draw(st.sampled_from(["cmd", "cmd", "cmd", "cap", "async", "fn"]))
        b["sep"] = draw(st.sampled_from([" ", "\n"]))
        bs.append(b)
    # $PWD says nothing about where a file is.
    case = {"blocks": bs, "pwd": draw(st.sampled_from(["", "", "sub", "dir", "none", "file"])), "stdin": draw(st.sampled_from(["", "input\n", "in" * 300])),
            "files": {f: draw(st.sampled_from(["", "old\n", "content of a file\n", "x" * 5000]))
                      for f in draw(st.lists(st.sampled_from(P.FILES + ["a b", "sub/fe"]), unique=True, max_size=5))}}
    if draw(st.integers(0, 14)) == 0:
        s = bs[-1]["cmds"][-1][0]
        bs[-1]["cmds"][-1] = [s]
        r = draw(st.sampled_from([["badfd", "3> junk", 3], ["badfd", "0> junk", 0], ["badfd", "1>3", 3], ["badfd", "2>0", 0], ["badfd", "1>0", 0],
                                  ["badfd", "4>> junk", 4], ["badfd", "> 5", 5], ["badfd", "1>12", 12], ["badfd", "3>1", 3]]))
        k = draw(st.integers(0, len(s["r"])))
        s["r"] = s["r"][:k] + [r] + s["r"][k:]
        s["rf"] = (s.get("rf") or [])[:k] + ["lit"] + (s.get("rf") or [])[k:]
    return case


def strategy(tier):
    return cases()


def build(case):
    w = P.World({k: v.encode() for k, v in case["files"].items()}, case["stdin"].encode())
    # The forms of the targets: variables holding them.
    decl, names = "", {}
    blocks = []
    for b in case["blocks"]:
        nb = dict(b, cmds=[])
        for pl in b["cmds"]:
            npl = []
            for s in pl:
                rf = []
                for r, f in zip(s["r"], s.get("rf") or ["lit"] * len(s["r"])):
                    if r[0] in ("dup", "badfd"):
                        rf.append("lit")
                        continue
                    t = r[1] if r[0] in ("<", "<<") else r[2]
                    if f == "var":
                        if t not in names:
                            names[t] = "$w%d" % len(names)
                            decl += "let %s = %s\n" % (names[t][1:], str_lit(t))
                        rf.append(names[t])
                    elif f == "part" and t:
                        # A prefix from a variable, the rest literal.
                        key = (t[:1],)
                        if key not in names:
                            names[key] = "$w%d" % len(names)
                            decl += "let %s = %s\n" % (names[key][1:], str_lit(t[:1]))
                        rf.append("${%s}" % names[key][1:] + (P.dq(t[1:]) if t[1:] else ""))
                    else:
                        rf.append("dq" if f == "dq" else "lit")
                npl.append(dict(s, rf=rf))
            nb["cmds"].append(npl)
        blocks.append(nb)
    text = P.REPORT + decl
    labels = set()
    some, n = False, 0
    rc, msg = 0, b""
    for k, b in enumerate(blocks):
        pre, post = {"cmd": ("let r%d = { " % k, " }\n"), "cap": ("let r%d = ${ " % k, " }\n"),
                     "async": ("let h%d = &{ " % k, " }\nlet r%d = h%d.join()\n" % (k, k)),
                     "fn": ("let f%d = function () { " % k, " } end\nlet r%d = f%d()\n" % (k, k))}[b["how"]]
        text += pre
        src, where = P.source(b, len(text), b["sep"])
        text += src + post
        out, err = (P.Pipe("cout"), P.Pipe("cerr")) if b["how"] == "cap" else (w.out, w.err)
        for pl in b["cmds"]:
            for s in pl:
                n += 1
                kinds = [r[0] for r in s["r"]]
                if kinds and not s["bad"]:
                    some = True
                if "<" in kinds:
                    labels.add("input file")
                if "<<" in kinds:
                    labels.add("here string")
                if ">>" in kinds:
                    labels.add("append")
                if "dup" in kinds:
                    labels.add("streams merged")
                if len(kinds) > 2:
                    labels.add("several redirections")
                if any(f.startswith("$") for f in s["rf"]):
                    labels.add("variable target")
        if b["how"] == "cap":
            labels.add("captured")
        try:
            failures, _ = w.block(b, out, err)
        except P.Panics as e:
            if b["how"] in ("cap",):
                pass
            l, c = P.line_col(text, where[w.ran][0])
            rc, msg = 127, b"Panic in t.hsh (line %d, column %d): %s\n" % (l, c, e.msg.encode())
            labels.add("panic")
            break
        if any(r[1][1] == 127 for _, bad in failures for r in bad):
            labels.add("cannot open")
        text += "std.println(rep(r%d))\n" % k
        w.out.write(P.report(failures, where, text, ok="dict" if b["how"] == "cap" else "nil").encode() + b"\n")
        if b["how"] == "cap":
            text += "let c%d = if std.type(r%d) == \"error\" then r%d.context else r%d end\n" % (k, k, k, k)
            text += "std.println(c%d.stdout ++ \"|\" ++ c%d.stderr)\n" % (k, k)
            w.out.write(bytes(out.data) + b"|" + bytes(err.data) + b"\n")
    return text, labels, some, w, n, rc, msg


def show(case):
    return build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    P.few_descriptors()
    text, labels, some, w, n, rc, msg = build(case)
    if w.racy:
        return Verdict(labels=["skipped: order not defined"], nontrivial=False)
    labels = sorted(labels | w.labels)
    d = rt.fresh()
    try:
        P.setup_files(d)
        pwd = case.get("pwd") and {"PWD": os.path.join(d, case["pwd"]), "OLDPWD": d}
        o = rt.script(text.encode("latin-1"), cwd=d, stdin=case["stdin"].encode(), env=pwd or None,
                      files={k: v.encode() for k, v in case["files"].items()})
        if msg:
            w.err.write(msg)
        exp = bytes(w.out.data)
        why = P.compare(text, o, exp, w, rc) or P.compare_files(d, w)
        if why:
            return fail({"why": why, "script": text, "expected": exp[-1500:].decode("latin-1"), "actual": o.brief()},
                        labels=labels, nontrivial=some, hang=o.hang, n=n)
        return Verdict(labels=labels, nontrivial=some, n=n)
    finally:
        rt.drop(d)


PINNED = [
    {"blocks": [{"how": "cmd", "sep": " ", "cmds": [
        [{"m": ["cat"], "r": [["<<", "x" * 200000]], "rf": ["var"], "t": False, "bad": None}],
        [{"m": ["both", "6f", "65"], "r": [[">>", 2, "fa"], ["dup", 1, 2]], "rf": ["lit", "lit"], "t": False, "bad": None}]]}],
     "stdin": "", "files": {"fa": "old\n"}},
]
