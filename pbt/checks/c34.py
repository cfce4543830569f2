"""Generated histories of command blocks of every kind, run by an interpreter whose commands each report what they were started with, and which is looked at between them: nothing but the standard streams reaches a command, and nothing of a finished block is left in the interpreter."""
import os

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import procs as P

COUNTS = {"quick": 2600, "thorough": 60000}
RULE = ("a case is a history of command blocks: in the foreground, captured and asynchronous, some of which fail, cannot start, panic on "
        "their way or have readers that stop early; non-trivial: at least two commands report, and two blocks of different kinds have run; "
        "each report of a command and each look at the interpreter is one evaluation")
SAMPLE_LABELS = ("panic on the way", "panic in a pipeline", "unstartable", "reader stops early", "async joined late", "never joined", "built-in", "here-string",
                 "repeated", "concurrent", "large output", "exec failed")
MIX = P.Mix(data=3, big=1, fail=3, kill=1, bad=4, redir=3, files=2, stdin=1, tries=7, stages=4, cmds=3)
# Commands that panic when they are executed, in the place of a stage.
FAULTS = ["hx out '62' > nomatch*", "hx cat < nomatch*x", "hx cat 5> /dev/null", "A=nomatch* hx env A", "nomatch* a", "hx cat >> nomatch*.x", "hx cat 2> nomatch*.y"]
# Pipelines that are not modelled elsewhere.
FREE = ["hx fill 1 '%d' '3' ? | hx head '10'", "hx fill 1 '%d' '4' ? | hx exit '0'", "hx fill 1 '%d' '5' ? | hx d exit '2' ? | hx head '5'", "hx exit '0' << 'unread text'",
        "hx fill 1 '%d' '6' ? | nosuch ? | hx cat", "hx fill 1 '%d' '7' ? | hx cat << 'x' > fa", "hx lines 2 '%d' '1' 2>1 | hx count", "hx out '61' | hx cat | hx cat | hx cat | hx cat | hx cat",
        "hx err '61' 2> fa | hx cat << 'b' 2>1 | hx catexit '3' ?", "nosuch ? | nosuch ? | nosuch ?", "hx exit '1' ? | hx kill '9' ? | hx exit '0'", "hx fill 1 '%d' '8' | hx drain '0'",
        "hx exit '0' << $long", "nosuch << $long ?", "hx head '3' << $long", "hx count << $long"]
SIZES = [10, 4096, 65536, 65537, 200000, 1000000]


@st.composite
def step(draw):
    how = draw(st.sampled_from(["sync", "sync", "cap", "cap", "async", "async"]))
    cmds = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 9))
        if k < 3:
            cmds.append(["free", draw(st.integers(0, len(FREE) - 1)), draw(st.sampled_from(SIZES))])
        elif k < 5 and how == "sync":
            cmds.append(draw(st.one_of(st.builds(lambda i: ["bi", i], st.integers(0, len(P.BUILTINS) - 1)),
                                       st.sampled_from([["spawn", "hx zero exit '0'"], ["spawn", "hx z exit '3' ?"], ["spawn", "hx z kill '15' ?"], ["spawn", "hx z rev"]]))))
        elif k < 7:
            n = draw(st.integers(1, 4))
            cmds.append(["fault", draw(st.integers(0, len(FAULTS) - 1)), n, draw(st.integers(0, n - 1)), draw(st.booleans())])
        else:
            cmds.append(["pipe", draw(P.pipeline(MIX))])
    return {"how": how, "cmds": cmds, "join": draw(st.sampled_from(["now", "now", "later", "later", "end", "never"])) if how == "async" else None,
            "n": draw(st.sampled_from([1, 1, 1, 1, 2, 5, 20])), "fn": draw(st.integers(0, 3)) == 0}


def strategy(tier):
    return st.fixed_dictionaries({"steps": st.lists(step(), min_size=2, max_size=7), "look": st.lists(st.booleans(), min_size=7, max_size=7),
                                  "crowd": st.sampled_from([0] * 12 + [3, 8, 16])})


def commands(cmds, labels):
    """Text of a block, whether it can panic."""
    out, panics = [], False
    for c in cmds:
        if c[0] == "free":
            t = FREE[c[1]]
            out.append(t % c[2] if "%d" in t else t)
            if "head" in t or "exit '0'" in t:
                labels.add("reader stops early")
            if "<<" in t:
                labels.add("here-string")
            if c[2] > 65536 and "%d" in t:
                labels.add("large output")
        elif c[0] == "bi":
            labels.add("built-in")
            if P.BUILTINS[c[1]][0].startswith("exec"):
                labels.add("exec failed")
            out.append(P.BUILTINS[c[1]][0] + " ?")
        elif c[0] == "spawn":
            labels.add("built-in")
            out.append("spawn0 " + c[1])
        elif c[0] == "fault":
            f = FAULTS[c[1]]
            st_ = ["hx out '6162'" if i == 0 else "hx cat" for i in range(c[2])]
            if c[2] > 1 and c[4]:
                st_[c[2] - 1] = "hx head '1'"
            st_[c[3]] = f
            out.append(" | ".join(st_))
            panics = True
            labels.add("panic on the way")
            if c[2] > 1:
                labels.add("panic in a pipeline")
        else:
            out.append(P.source({"cmds": [c[1]]}, 0)[0])
            if any(s["bad"] for s in c[1]):
                labels.add("unstartable")
    return " ; ".join(out), panics


LOOK = "{ hx probe probe.log }\n"


def build(case):
    labels, kinds = set(), set()
    text = "let long = \"x\"\nfor i in std.range(0, 17, 1) do long = long ++ long end\nlet r = nil\nlet hs = []\n"
    looks, pending, never = 0, [], False
    if case["crowd"]:
        # Blocks that all run at once, while others start.
        labels.add("concurrent")
        for k in range(case["crowd"]):
            text += "std.push(hs, &{ hx wait go ; hx lines 1 '5000' '%d' | hx cat | hx cat > cr%d })\n" % (k, k)
    for i, s in enumerate(case["steps"]):
        kinds.add(s["how"])
        src, panics = commands(s["cmds"], labels)
        pre = {"sync": "{ ", "cap": "${ ", "async": "&{ "}[s["how"]]
        body = pre + src + " }"
        if s["n"] > 1:
            labels.add("repeated")
        if s["how"] == "async":
            if s["join"] == "now":
                body = "let j = %s\n\tj.join()" % body
            elif s["join"] == "never":
                labels.add("never joined")
                never = True
            else:
                body = "std.push(hs, %s)" % body
                labels.add("async joined late")
        body = "std.catch(function ()\n\t%s\nend)\n" % body if not s["fn"] else "function f%d()\n\t%s\nend\nstd.catch(f%d)\n" % (i, body, i)
        if s["n"] > 1:
            text += "for k in std.range(0, %d, 1) do\n%send\n" % (s["n"], body)
        else:
            text += body
        if s["how"] == "async" and s["join"] in ("later", "end"):
            pending.append(s["join"])
        if pending and s["how"] != "async" and "later" in pending:
            if case["crowd"]:
                text += "{ hx out '67' > go }\n"
            text += "for h in std.iter(hs) do std.catch(function () h.join() end) end\nhs = []\n"
            pending = []
            if case["look"][i % 7]:
                text += LOOK
                looks += 1
        elif case["look"][i % 7] and not pending and not case["crowd"]:
            text += LOOK
            looks += 1
    if case["crowd"]:
        text += "{ hx out '67' > go }\n"
    text += "for h in std.iter(hs) do std.catch(function () h.join() end) end\n" + LOOK + "std.println(\"end\")\n"
    return text, looks + 1, labels, kinds


def show(case):
    return build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    text, looks, labels, kinds = build(case)
    d = rt.fresh()
    try:
        P.setup_files(d)
        o = rt.script(text.encode("latin-1"), cwd=d, env={"HXREPORT": os.path.join(d, "report.log")}, timeout=40)

        def lines(f):
            try:
                with open(os.path.join(d, f), "rb") as fh:
                    return fh.read().decode("latin-1").split("\n")[:-1]
            except FileNotFoundError:
                return []
        rep, pro = lines("report.log"), lines("probe.log")
    finally:
        rt.drop(d)
    why = None
    if o.hang:
        why = "hang"
    elif o.rc != 0 or not o.out.endswith(b"end\n"):
        why = "exit status %r" % o.rc
    elif any(l != "ok" for l in rep):
        why = "a command was started with: %s" % next(l for l in rep if l != "ok")
    elif any(l != "clean" for l in pro):
        why = "left in the interpreter, at look %d: %s" % (next(i for i, l in enumerate(pro) if l != "clean") + 1, next(l for l in pro if l != "clean"))
    elif len(pro) != looks:
        why = "%d looks instead of %d" % (len(pro), looks)
    labels = sorted(labels)
    some = len(rep) >= 2 and len(kinds) > 1
    if why:
        return fail({"why": why, "script": text, "actual": o.brief()}, labels=labels, nontrivial=some, hang=o.hang, n=len(rep) + looks)
    return Verdict(labels=labels, nontrivial=some, n=len(rep) + looks)


# An exec that fails while input of other commands is left unread; panics at each place of a pipeline.
PINNED = [{"steps": [{"how": "sync", "cmds": [["free", 13, 10], ["bi", 8]], "join": None, "n": 400, "fn": False},
                     {"how": "async", "cmds": [["free", 14, 10], ["free", 12, 10]], "join": "end", "n": 20, "fn": False},
                     {"how": "sync", "cmds": [["bi", 9], ["bi", 10]], "join": None, "n": 200, "fn": False}], "look": [True] * 7, "crowd": 0}] + [
    {"steps": [{"how": how, "cmds": [["fault", f, 3, i, False]], "join": "now", "n": 3, "fn": False} for how in ("sync", "cap", "async") for i in range(3)], "look": [True] * 7, "crowd": 0}
    for f in (0, 1, 4)]
