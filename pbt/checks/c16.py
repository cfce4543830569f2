"""Generated capture blocks of commands writing known bytes, in any amounts, to both streams, against an exact model of what each stream receives."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import procs as P

COUNTS = {"quick": 4500, "thorough": 150000}
RULE = ("a case is a script of 1 to 4 capture blocks whose commands write given bytes to their streams; non-trivial: at least "
        "one captured stream is not empty; each block is one evaluation")
ASSUMPTIONS = ["outputs whose order is not defined (unsynchronized stages of one pipeline writing to one stream) are not compared"]
SAMPLE_LABELS = ("error result", "large", "both streams", "repeated", "pipeline", "redirected", "nested")
MIX = P.Mix(data=5, big=3, fail=2, kill=1, bad=1, redir=2, files=1, stdin=1, tries=3, stages=3, cmds=4,
            sizes=P.SIZES + [1 << 20, 300000])
SMALL = P.Mix(data=5, big=0, fail=1, kill=0, bad=0, redir=1, files=0, stdin=0, tries=3, stages=2, cmds=2)

# Nothing stops the block.
FEW = P.Mix(data=5, big=0, fail=1, kill=0, bad=0, redir=1, files=0, stdin=0, tries=0, stages=2, cmds=2)


@st.composite
def cases(draw):
    bs = []
    for _ in range(draw(st.integers(1, 4))):
        b = draw(P.blocks(MIX)) if draw(st.integers(0, 79)) else {"cmds": draw(P.many(FEW))}
        b["how"] = draw(st.sampled_from(["let", "let", "let", "fn", "arg", "expr", "nest", "own"]))
        b["sep"] = draw(st.sampled_from([" ", "\n", "\t", " # c\n"]))
        bs.append(b)
    case = {"blocks": bs, "stdin": draw(st.sampled_from(["", "input\n", "in" * 300])), "loop": None}
    if draw(st.integers(0, 39)) == 0:
        case["loop"] = draw(P.blocks(SMALL))
    return case


def strategy(tier):
    return cases()


def build(case):
    w = P.World({"fa": b"file a\n"}, case["stdin"].encode())
    text = P.REPORT + """function show(v)
	std.println(rep(v))
	let c = if std.type(v) == "error" then v.context else v end
	std.println(std.len(c), std.len(c.stdout), std.len(c.stderr))
	std.print(c.stdout)
	std.print("|")
	std.print(c.stderr)
	std.println("|")
end
"""
    exp = bytearray()
    labels = set()
    some = False
    for k, b in enumerate(case["blocks"]):
        how = b["how"]
        pre, post = {
            "let": ("let r%d = " % k, "\nshow(r%d)\n" % k),
            "fn": ("let f%d = function ()\n" % k, "\nend\nshow(f%d())\n" % k),
            "arg": ("show(", ")\n"),
            "expr": ("let q%d = [1, " % k, ", 2]\nshow(q%d[1])\n" % k),
            "nest": ("let r%d = nil\nfor i in std.range(0, 1, 1) do if true then r%d = " % (k, k), "\nend end\nshow(r%d)\n" % k),
            # The script prints and runs other commands in between.
            "own": ("std.print(\"own \")\nlet r%d = " % k, "\n{ hx out 6f ; hx err 65 }\nshow(r%d)\n" % k),
        }[how]
        text += pre + "${ "
        src, where = P.source(b, len(text), b["sep"])
        text += src + " }"
        out, err = P.Pipe("cout"), P.Pipe("cerr")
        failures, _ = w.block(b, out, err)
        if how == "own":
            exp += b"own o"
            w.err.write(b"e")
        text += post
        exp += P.report(failures, where, text, ok="dict").encode() + b"\n"
        if failures:
            labels.add("error result")
        if len(b["cmds"]) > 7:
            labels.add("many commands")
        if len(out.data) > 60000 or len(err.data) > 60000:
            labels.add("large")
        if out.data and err.data:
            labels.add("both streams")
        if any(len(p) > 1 for p in b["cmds"]):
            labels.add("pipeline")
        if any(s["r"] for p in b["cmds"] for s in p):
            labels.add("redirected")
        if how != "let":
            labels.add("nested")
        some = some or bool(out.data or err.data)
        exp += b"%d\t%d\t%d\n" % (3 if failures else 2, len(out.data), len(err.data))
        exp += out.data + b"|" + err.data + b"|\n"
    if case["loop"]:
        labels.add("repeated")
        b = case["loop"]
        text += "for i in std.range(0, 40, 1) do\nlet v = ${ "
        src, where = P.source(b, len(text))
        text += src + " }\nshow(v)\nend\n"
        for _ in range(40):
            out, err = P.Pipe("cout"), P.Pipe("cerr")
            failures, _ = w.block(b, out, err)
            exp += P.report(failures, where, text, ok="dict").encode() + b"\n"
            exp += b"%d\t%d\t%d\n" % (3 if failures else 2, len(out.data), len(err.data))
            exp += out.data + b"|" + err.data + b"|\n"
    return text, bytes(exp), labels, some, w


def show(case):
    return build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    P.few_descriptors()
    text, exp, labels, some, w = build(case)
    if w.racy:
        return Verdict(labels=["skipped: order not defined"], nontrivial=False)
    labels = sorted(labels | w.labels)
    d = rt.fresh()
    try:
        P.setup_files(d)
        o = rt.script(text.encode("latin-1"), cwd=d, stdin=case["stdin"].encode(), files={"fa": b"file a\n"})
        why = P.compare(text, o, exp, w) or P.compare_files(d, w)
        n = len(case["blocks"])
        if why:
            return fail({"why": why, "script": text, "expected": exp[-1500:].decode("latin-1"), "actual": o.brief()},
                        labels=labels, nontrivial=some, hang=o.hang, n=n)
        return Verdict(labels=labels, nontrivial=some, n=n)
    finally:
        rt.drop(d)


PINNED = [
    {"blocks": [{"how": "let", "sep": " ", "cmds": [[
        {"m": ["both", "61", "65"], "r": [], "t": False, "bad": None},
        {"m": ["cat"], "r": [], "t": False, "bad": None}]]}], "stdin": "", "loop": None},
    {"blocks": [{"how": "let", "sep": " ", "cmds": [[
        {"m": ["weave", "200000", "200000", "5"], "r": [], "t": False, "bad": None}]]}], "stdin": "", "loop": None},
    {"blocks": [{"how": "let", "sep": " ", "cmds": [[
        {"m": ["both", "%02x" % (i + 33), "65"], "r": [], "t": i % 3 == 0, "bad": None}] for i in range(70)]}], "stdin": "", "loop": None},
]
