"""Generated command blocks with failing, killed, not startable and built-in commands, marked with ? or not, against a model of what runs and what is reported."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import procs as P

COUNTS = {"quick": 5500, "thorough": 150000}
RULE = ("a case is a script of 1 to 4 blocks of commands; non-trivial: some command of it fails; each block is one evaluation")
ASSUMPTIONS = ["outputs whose order is not defined (unsynchronized stages of one pipeline writing to one stream) are not compared"]
SAMPLE_LABELS = ("signal", "not started", "stopped", "went on after ?", "several failures", "pipeline with several failures", "builtin", "propagated")
MIX = P.Mix(data=1, big=0, fail=5, kill=2, bad=4, redir=1, files=1, stdin=1, tries=5, stages=4, cmds=7)
RARE = P.Mix(data=5, big=0, fail=1, kill=0, bad=0, redir=0, files=0, stdin=1, tries=2, stages=3, cmds=7)

NEVER = P.Mix(data=2, big=0, fail=5, kill=1, bad=1, redir=0, files=0, stdin=1, tries=0, stages=2, cmds=7)


@st.composite
def one(draw, mix, builtins):
    k = draw(st.integers(0, 19))
    if k == 0 and builtins:
        return [{"m": ["exit", "0"], "r": [], "t": draw(st.booleans()), "bad": None, "bi": draw(st.integers(0, len(P.BUILTINS) - 1))}]
    if k == 1 and builtins:
        m = draw(P.source_mode(mix))
        return [{"m": m, "r": [], "t": draw(st.booleans()), "bad": None, "pre": "spawn0 hx zero"}]
    if k == 2:
        # Not startable for its arguments.
        return [{"m": ["out", "61"], "r": [], "t": draw(st.booleans()), "bad": None, "pre": draw(st.sampled_from(["hx $nul", "hx x $big", "$none", "hx '\\0'", "X=$nul hx"]))}]
    if k == 3:
        return [dict(s, pre=draw(st.sampled_from(["X=1 hx", "$prog", "${prog}", "'hx'", '"h"x', "$p1'x'", "A=$nil B='b c' hx"])), bad=None)
                for s in draw(P.pipeline(mix))]
    if k == 4 and draw(st.booleans()):
        return draw(P.pipeline(mix, draw(st.sampled_from([8, 12, 17]))))
    return draw(P.pipeline(mix))


@st.composite
def cases(draw):
    bs = []
    for _ in range(draw(st.integers(1, 4))):
        how = draw(st.sampled_from(["let", "let", "let", "prop", "stmt", "cap", "async", "loop", "if"]))
        mix = draw(st.sampled_from([MIX, RARE]))
        b = {"how": how, "sep": draw(st.sampled_from([" ", "\n", " ", "\n\t", " # c ; } ?\n"])),
             "cmds": draw(st.lists(one(mix, how not in ("cap", "async")), min_size=1, max_size=mix.cmds)) if draw(st.integers(0, 79)) else
             draw(P.many(draw(st.sampled_from([RARE, NEVER]))))}
        bs.append(b)
    return {"blocks": bs, "stdin": draw(st.sampled_from(["", "input\n"]))}


def strategy(tier):
    return cases()


FAIL_PRE = {"hx $nul": "nul byte found in provided data", "hx '\\0'": "nul byte found in provided data",
            "hx x $big": "Argument list too long (os error 7)", "$none": P.ENOENT, "X=$nul hx": "nul byte found in provided data"}


class World(P.World):
    def pipeline(self, stages, out, err):
        pre = stages[0].get("pre")
        if pre in FAIL_PRE:
            return [(FAIL_PRE[pre], 127)]
        return super().pipeline(stages, out, err)


DECL = """let nul = "a\\0b"
let big = "x"
for i in std.range(0, 18, 1) do big = big ++ big end
let none = "no such"
let prog = "hx"
let p1 = "h"
"""


def build(case):
    w = World({"fa": b"file a\n"}, case["stdin"].encode())
    text = P.REPORT
    body = [s for b in case["blocks"] for pl in b["cmds"] for s in pl]
    if any("$" in (s.get("pre") or "") for s in body):
        text += DECL.replace("let p1", "let nil_ = nil\nlet p1")
    labels = set()
    some = False
    for k, b in enumerate(case["blocks"]):
        how = b["how"]
        rep = "std.println(rep(r%d))\n" % k
        times = 1
        pre, post = {
            "let": ("let r%d = { " % k, " }\n" + rep),
            "stmt": ("let f%d = function ()\nif false then 1 end\n{ " % k, " }\nend\nlet r%d = f%d()\n" % (k, k) + rep),
            "prop": ("let f%d = function ()\nlet x = { " % k, " } ?\nstd.println(\"went on\", x)\nend\nlet r%d = f%d()\n" % (k, k) + rep),
            "cap": ("let r%d = ${ " % k, " }\n" + rep),
            "async": ("let r%d = &{ " % k, " }.join()\n" + rep),
            "loop": ("for i in std.range(0, 3, 1) do\nlet r%d = { " % k, " }\n" + rep + "end\n"),
            "if": ("let r%d = if true then { " % k, " } else { hx out 6e6f } end\n" + rep),
        }[how]
        text += pre
        src, where = P.source(b, len(text), b["sep"])
        src = src.replace("A=$nil ", "A=$nil_ ") if "A=$nil " in src else src
        if "A=$nil_" in src:
            src2, where = P.source({"cmds": [[dict(s, pre=(s["pre"].replace("$nil ", "$nil_ ") if s.get("pre") else None)) for s in pl] for pl in b["cmds"]]},
                                   len(text), b["sep"])
            src = src2
        # The place of a command is that of its program, after any assignments.
        for i, pl in enumerate(b["cmds"]):
            for j, s in enumerate(pl):
                p = (s.get("pre") or "").replace("$nil ", "$nil_ ")
                if "=" in p:
                    where[i][j] += p.index(" hx") + 1
        text += src + post
        for _ in range(3 if how == "loop" else 1):
            out, err = (P.Pipe("cout"), P.Pipe("cerr")) if how == "cap" else (w.out, w.err)
            failures, ran = w.block(b, out, err)
            if how == "prop" and not failures:
                w.out.write(b"went on\tnil\n")
            if how == "prop" and failures:
                labels.add("propagated")
            w.out.write(P.report(failures, where, text, ok="dict" if how == "cap" else "nil").encode() + b"\n")
            some = some or bool(failures)
            if len(b["cmds"]) > 7:
                labels.add("many commands")
            if ran < len(b["cmds"]):
                labels.add("stopped")
            if failures and ran > failures[0][0] + 1:
                labels.add("went on after ?")
            if len(failures) > 1:
                labels.add("several failures")
            for i, bad in failures:
                if len(bad) > 1:
                    labels.add("pipeline with several failures")
                for j, (d, s) in bad:
                    if s == 127 and "non-zero" not in d:
                        labels.add("not started")
                    if s > 128:
                        labels.add("signal")
        if any(s.get("bi") is not None or (s.get("pre") or "").startswith("spawn0") for pl in b["cmds"] for s in pl):
            labels.add("builtin")
    return text, labels, some, w


def show(case):
    return build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    P.few_descriptors()
    text, labels, some, w = build(case)
    if w.racy:
        return Verdict(labels=["skipped: order not defined"], nontrivial=False)
    labels = sorted(labels | w.labels)
    exp = bytes(w.out.data)
    n = len(case["blocks"])
    d = rt.fresh()
    try:
        P.setup_files(d)
        o = rt.script(text.encode("latin-1"), cwd=d, stdin=case["stdin"].encode(), files={"fa": b"file a\n"})
        why = P.compare(text, o, exp, w) or P.compare_files(d, w)
        if why:
            return fail({"why": why, "script": text, "expected": exp[-1500:].decode("latin-1"), "actual": o.brief()},
                        labels=labels, nontrivial=some, hang=o.hang, n=n)
        return Verdict(labels=labels, nontrivial=some, n=n)
    finally:
        rt.drop(d)


def _c(m, r=(), t=True, bad=None, **kw):
    return [dict({"m": m, "r": list(r), "t": t, "bad": bad}, **kw)]


PINNED = [
    # A failed exec left the shell open to SIGPIPE.
    {"blocks": [{"how": "let", "sep": " ", "cmds": [_c(["exit", "0"], bi=next(i for i, b in enumerate(P.BUILTINS) if b[0].startswith("exec ")))]
                 + [_c(["out", "-"], [["<<", "x"]], bad="dir")] * 20}], "stdin": ""},
    {"blocks": [{"how": "let", "sep": " ", "cmds": [_c(["say", "%02x" % (i + 33), str(i % 3)], t=False) for i in range(70)]}], "stdin": ""},
    {"blocks": [{"how": "let", "sep": " ", "cmds": [_c(["say", "%02x" % (i + 33), "0"]) for i in range(70)] + [_c(["exit", "9"]), _c(["out", "61"])]}], "stdin": ""},
]
