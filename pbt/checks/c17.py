"""Generated pipelines of filters over data of any size, of stages that must run together, and of readers that stop early, against an exact model of what flows where."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import procs as P

COUNTS = {"quick": 3500, "thorough": 130000}
RULE = ("a case is a script of 1 to 4 pipelines of 1 to 9 commands; non-trivial: some pipeline of at least 2 commands passes at "
        "least one byte between commands, or makes its commands wait for each other; each pipeline is one evaluation")
ASSUMPTIONS = ["outputs whose order is not defined (unsynchronized stages of one pipeline writing to one stream) are not compared",
               "a pipe buffers less than 100 kB"]
SAMPLE_LABELS = ("large", "script input", "failure", "wait for each other", "stops early", "ends last", "5 or more stages")
MIX = P.Mix(data=4, big=3, fail=1, kill=1, bad=1, redir=1, files=1, stdin=2, tries=5, stages=9, cmds=1,
            sizes=P.SIZES + [1 << 20, 300000, 3000000])
PLAIN = P.Mix(data=4, big=3, fail=0, kill=0, bad=0, redir=0, files=0, stdin=3, tries=0, stages=9, cmds=1,
              sizes=P.SIZES + [1 << 20, 300000, 3000000])


@st.composite
def data(draw):
    mix = draw(st.sampled_from([MIX, PLAIN]))
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 9] * 4 + [10, 12, 16, 17, 33]))
    return {"k": "data", "cmds": [[draw(P.stage(mix, i == 0, P.FILES)) for i in range(n)]]}


@st.composite
def meet(draw):
    """Every stage waits until another one acted, in any order: they can only end together."""
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 7] * 5 + [9, 12, 17, 33]))
    return {"k": "meet", "order": draw(st.permutations(range(n)))}


@st.composite
def early(draw):
    """The reader stops before the end: the writer is ended by the broken pipe, nothing hangs."""
    n = draw(st.sampled_from([0, 0, 1, 10, 5000, 70000, 200000]))
    return {"k": "early", "read": n, "write": n + draw(st.sampled_from([150000, 400000, 2000000])),
            "mid": draw(st.lists(st.sampled_from(["cat", "up"]), max_size=2)),
            "exit": draw(st.sampled_from([None, None, 0, 3])), "t": draw(st.booleans())}


@st.composite
def last(draw):
    """The pipeline ends when all of its commands have, whichever is last."""
    n = draw(st.integers(1, 5))
    slow = draw(st.integers(0, n - 1))
    return {"k": "last", "n": n, "slow": slow, "ms": draw(st.sampled_from([15, 30])), "fail": draw(st.sampled_from([None, None, 0, n - 1])),
            "t": draw(st.booleans())}


@st.composite
def cases(draw):
    kinds = [data, data, data, data, meet, early, last]
    ps = [draw(draw(st.sampled_from(kinds))()) for _ in range(draw(st.integers(1, 4)))]
    ps = [dict(p, sep=draw(st.sampled_from([" ", "\n", "\t", " # c | d\n"])), how=draw(st.sampled_from(["let", "fn", "arg"]))) for p in ps]
    stdin = draw(st.sampled_from([["t", ""], ["t", "input\n"], ["n", 70000], ["n", 300000], ["t", "a b\0\xff"]]))
    rep = draw(st.sampled_from([1] * 30 + [25]))
    if rep > 1:
        ps = [p for p in ps if p["k"] == "data"][:1] or ps[:1]
    return {"pipes": ps, "stdin": stdin, "repeat": rep}


def strategy(tier):
    return cases()


def st_(m, t=False):
    return {"m": [str(x) for x in m], "r": [], "t": t, "bad": None}


def build(case):
    k, v = case["stdin"]
    stdin = v.encode("latin-1") if k == "t" else P.lines(v, 7)
    w = P.World({"fa": b"file a\n"}, stdin)
    text = P.REPORT
    labels = set()
    some = False
    n = 0
    out = w.out
    logs = {}
    pipes = []
    for i in range(case["repeat"]):
        pipes += case["pipes"]
    for i, p in enumerate(pipes):
        pre, post = {"let": ("let r%d = " % i, "\nstd.println(rep(r%d))\n" % i),
                     "fn": ("let f%d = function () " % i, " end\nstd.println(rep(f%d()))\n" % i),
                     "arg": ("std.println(rep(", "))\n")}[p["how"]]
        text += pre + "{ "
        n += 1
        kind = p["k"]
        if kind == "data":
            block = {"cmds": p["cmds"]}
        elif kind == "meet":
            m = len(p["order"])
            stages = [None] * m
            prev = "-"
            for j in p["order"]:
                f = "m%d_%d" % (i, j)
                stages[j] = st_(["meet", prev, "61", f])
                logs[f] = b"a\n"
                prev = f
            block = {"cmds": [stages]}
            labels.add("wait for each other")
        elif kind == "early":
            end = st_(["head", p["read"]]) if p["exit"] is None else st_(["exit", p["exit"]], p["t"])
            block = {"cmds": [[st_(["lines", 1, p["write"], i], p["t"])] + [st_([x], p["t"]) for x in p["mid"]] + [end]]}
            labels.add("stops early")
        else:
            stages = [st_(["slog", p["ms"] if j == p["slow"] else 0, "l%d_%d" % (i, j), "62"]) for j in range(p["n"])]
            for j in range(p["n"]):
                logs["l%d_%d" % (i, j)] = b"b\n"
            if p["fail"] is not None:
                stages[p["fail"]] = st_(["exit", 5], p["t"])
                logs.pop("l%d_%d" % (i, p["fail"]), None)
            block = {"cmds": [stages]}
            labels.add("ends last")
        src, where = P.source(block, len(text), p["sep"])
        text += src + " }" + post
        if kind == "data":
            failures, _ = w.block(block)
            if len(p["cmds"][0]) >= 5:
                labels.add("5 or more stages")
            if p["cmds"][0][0]["m"][0] in P.READERS and stdin:
                labels.add("script input")
        elif kind == "meet":
            failures = []
        elif kind == "early":
            bad = []
            stages = block["cmds"][0]
            data = P.lines(p["write"], i)
            if p["mid"] or p["exit"] is not None or p["read"] < len(data):
                # Filters read everything first, so that only the last of them meets the broken pipe.
                bad.append((len(stages) - 2, ("command returned non-zero", 141)))
            if p["exit"]:
                bad.append((len(stages) - 1, ("command returned non-zero", p["exit"])))
            if p["exit"] is None:
                if "up" in p["mid"]:
                    data = data.upper()
                w.out.write(data[:p["read"]])
            failures = [(0, bad)] if bad else []
        else:
            bad = [(p["fail"], ("command returned non-zero", 5))] if p["fail"] is not None else []
            failures = [(0, bad)] if bad else []
            # What the slowest did is there once the pipeline ended.
            if p["fail"] != p["slow"]:
                text += "{ hx cat < l%d_%d }\n" % (i, p["slow"])
        if failures:
            labels.add("failure")
        rep = P.report(failures, where, text).encode() + b"\n"
        w.out.write(rep)
        if kind == "last" and p["fail"] != p["slow"]:
            w.out.write(b"b\n")
        some = some or kind == "meet" or len(block["cmds"][0]) > 1
    if len(w.out.data) > 65536:
        labels.add("large")
    if case["repeat"] > 1:
        labels.add("repeated")
    return text, bytes(w.out.data), labels, some, w, n, logs, stdin


def show(case):
    return build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    P.few_descriptors()
    text, exp, labels, some, w, n, logs, stdin = build(case)
    if w.racy:
        return Verdict(labels=["skipped: order not defined"], nontrivial=False)
    labels = sorted(labels | w.labels)
    d = rt.fresh()
    try:
        P.setup_files(d)
        o = rt.script(text.encode("latin-1"), cwd=d, stdin=stdin, files={"fa": b"file a\n"})
        w.files.update(logs)
        why = P.compare(text, o, exp, w) or P.compare_files(d, w)
        if why:
            return fail({"why": why, "script": text, "expected": exp[-1500:].decode("latin-1"), "actual": o.brief()},
                        labels=labels, nontrivial=some, hang=o.hang, n=n)
        return Verdict(labels=labels, nontrivial=some, n=n)
    finally:
        rt.drop(d)


PINNED = [
    {"pipes": [{"k": "early", "read": 0, "write": 2000000, "mid": [], "exit": 0, "t": True, "sep": " ", "how": "let"},
               {"k": "meet", "order": [2, 0, 1], "sep": " ", "how": "let"},
               {"k": "last", "n": 3, "slow": 0, "ms": 30, "fail": None, "t": False, "sep": " ", "how": "let"}],
     "stdin": ["t", ""], "repeat": 1},
]
