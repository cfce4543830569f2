"""Generated histories of starting, running, joining and re-joining async blocks in a forced interleaving of their commands, against a model of the schedule and of each result."""
from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import procs as P

COUNTS = {"quick": 4000, "thorough": 100000}
RULE = ("a case is a script starting 1 to 5 async blocks, with the order in which all commands of the blocks and of the script act "
        "forced; non-trivial: at least two blocks, or a block and the script, act while none of them has ended; each join is one evaluation")
JOINARGS = b"incorrect amount of function parameters -- supplied %d, expected 0"
SAMPLE_LABELS = ("panics", "interleaved", "failure", "joined twice", "join before the end", "free running", "never joined", "pipeline", "large output", "any block", "crowd")


MIX = P.Mix(data=3, big=1, fail=3, kill=2, bad=3, redir=2, files=2, stdin=0, tries=5, stages=3, cmds=4)


@st.composite
def command(draw, last):
    n = draw(st.sampled_from([0, 0, 0, 0, 1, 3, 127, 255]))
    return {"status": n, "t": draw(st.booleans()), "stages": draw(st.sampled_from([1, 1, 1, 2, 3])), "fs": draw(st.integers(0, 2))}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    blocks = [draw(st.lists(command(False), min_size=1, max_size=4)) for _ in range(n)]
    # Each step of the script: ["s", i] start, ["j", i] join, ["e"] act itself; moves say who acts next.
    ops = []
    for i in range(n):
        ops.append(["s", i])
    joins = draw(st.permutations(range(n)))
    if draw(st.integers(0, 4)) == 0:
        joins = joins[:-1]
    ops = draw(st.permutations(ops))
    out = list(ops)
    for i in joins:
        lo = out.index(["s", i]) + 1
        out.insert(draw(st.integers(lo, len(out))), ["j", i])
    for _ in range(draw(st.integers(0, 4))):
        out.insert(draw(st.integers(0, len(out))), ["e"])
    # Second joins, at any later time.
    for i in joins:
        if draw(st.integers(0, 3)) == 0:
            out.insert(draw(st.integers(out.index(["j", i]) + 1, len(out))), ["j2", i])
    return {"blocks": blocks, "ops": out, "moves": draw(st.lists(st.integers(0, 5), min_size=40, max_size=40)),
            "how": draw(st.lists(st.sampled_from(["var", "arr", "dict", "fn", "get", "direct"]), min_size=n, max_size=n)),
            "free": draw(free()) if draw(st.integers(0, 3)) == 0 else None,
            "same": draw(P.blocks(MIX)) if draw(st.integers(0, 1)) else None,
            "crowd": draw(crowd()) if draw(st.integers(0, 39)) == 0 else None,
            "faulty": draw(faulty()) if draw(st.integers(0, 5)) == 0 else None}


@st.composite
def crowd(draw):
    """Many blocks, none of which can end before all have been started."""
    n = draw(st.one_of(st.integers(6, 20), st.integers(20, 48)))
    return {"n": n, "status": draw(st.sampled_from([[0], [0, 1], [3, 0, 0, 7]])), "step": draw(st.sampled_from([1, 1, -1, 5])),
            "pre": draw(st.sampled_from(["", "", "hx exit 0 ; "]))}


# Commands that panic when they are executed: before and after the program word, and the panic.
FAULTS = [("", "hx out '62' > nomatch*", "redirection expansion resulted in 0 items"), ("", "hx cat < nomatch*x", "redirection expansion resulted in 0 items"),
          ("", "hx out '62' 5> /dev/null", "unsupported file descriptor (5)"), ("A=nomatch* ", "hx env A", "env variable expansion resulted in 0 items"),
          ("", "nomatch* a", "program expansion resulted in 0 items"), ("", "hx out '62' >> nomatch*.x", "redirection expansion resulted in 0 items")]


@st.composite
def faulty(draw):
    """Blocks that panic on their way, joined any number of times."""
    return [{"before": draw(st.integers(0, 3)), "fail": draw(st.integers(0, 3)) == 0, "fault": draw(st.integers(0, len(FAULTS) - 1)), "pipe": draw(st.integers(0, 3)) == 0,
             "after": draw(st.integers(0, 2)), "joins": draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2]), max_size=4)) + [0]} for _ in range(draw(st.integers(1, 3)))]


@st.composite
def free(draw):
    """Blocks that take any time, run by the model only at their join."""
    return [{"ms": draw(st.lists(st.sampled_from([0, 0, 1, 5, 20]), min_size=1, max_size=4)),
             "big": draw(st.sampled_from([0, 0, 0, 70000, 300000])), "status": draw(st.sampled_from([0, 0, 2])),
             "sig": draw(st.sampled_from([0, 0, 9, 15]))} for _ in range(draw(st.integers(1, 4)))]


def strategy(tier):
    return cases()


def schedule(case):
    """Order in which things happen: who waits for whom, what runs, and what each block yields."""
    blocks, ops = case["blocks"], case["ops"]
    moves = list(case["moves"])
    pc, running, done, waiting = 0, {}, set(), None
    events = []          # (who, index): who = "e" or a block
    ran = {i: [] for i in range(len(blocks))}
    overlap = False
    while True:
        if waiting is not None and waiting in done:
            waiting = None
        can = []
        if waiting is None and pc < len(ops):
            can.append("m")
        can += sorted(running)
        if not can:
            break
        m = moves.pop(0) if moves else 0
        who = can[m % len(can)]
        if who == "m":
            op = ops[pc]
            pc += 1
            if op[0] == "s":
                running[op[1]] = 0
            elif op[0] == "j":
                waiting = op[1]
            elif op[0] == "e":
                events.append(("e", pc - 1))
                overlap = overlap or bool(running)
        else:
            overlap = overlap or len(running) > 1 or (waiting is None and pc < len(ops))
            k = running[who]
            events.append((who, k))
            ran[who].append(k)
            c = blocks[who][k]
            if (c["status"] and not c["t"]) or k + 1 == len(blocks[who]):
                del running[who]
                done.add(who)
            else:
                running[who] = k + 1
    return events, ran, overlap


def build(case):
    events, ran, overlap = schedule(case)
    name = {}
    prev = "-"
    waits = {}
    for w, k in events:
        f = "ev_%s_%d" % (w, k)
        waits[(w, k)] = prev
        prev = f
        name[(w, k)] = f
    text = P.REPORT + "let mine = \"old\"\nlet all = []\nlet map = @[]\nfunction again(j) std.catch(j).description end\n"
    files, absent = {}, []
    labels = set()
    if overlap:
        labels.add("interleaved")
    exp = b""
    joined = 0
    res = {}
    for idx, op in enumerate(case["ops"]):
        if op[0] == "e":
            text += "{ hx meet %s 65 %s }\n" % (waits[("e", idx)], name[("e", idx)])
            files[name[("e", idx)]] = b"e\n"
            continue
        i = op[1]
        how = case["how"][i]
        if op[0] == "s":
            cmds = []
            for k, c in enumerate(case["blocks"][i]):
                key = (i, k)
                f = "ev_%s_%d" % key
                st_ = [{"m": ["meet", waits.get(key, "-"), "62", f] + (["0"] if c["stages"] > 1 or not c["status"] else [str(c["status"])]),
                        "r": [], "t": c["t"], "bad": None}]
                for q in range(1, c["stages"]):
                    st_.append({"m": ["drain", str(c["status"] if q == min(c["stages"] - 1, max(1, c["fs"])) else 0)], "r": [], "t": c["t"], "bad": None})
                if c["stages"] > 1:
                    labels.add("pipeline")
                cmds.append(st_)
                if key in waits:
                    files[f] = b"b\n"
                else:
                    absent.append(f)
            pre, post = {"var": ("let h%d = " % i, "\n"), "arr": ("std.push(all, ", ")\nlet h%d = all[std.len(all) - 1]\n" % i),
                         "dict": ("map[%d] = " % i, "\nlet h%d = map[%d]\n" % (i, i)),
                         "fn": ("let g%d = function () " % i, " end\nlet h%d = g%d()\n" % (i, i)),
                         "get": ("let h%d = " % i, "\n"), "direct": ("let h%d = " % i, "\n")}[how]
            text += pre + "&{ "
            src, where = P.source({"cmds": cmds}, len(text))
            text += src + " }" + post + "let j%d = h%d.join\n" % (i, i)
            failures = []
            for k in ran[i]:
                c = case["blocks"][i][k]
                if c["status"]:
                    at = 0 if c["stages"] == 1 else min(c["stages"] - 1, max(1, c["fs"]))
                    failures.append((k, [(at, ("command returned non-zero", c["status"]))]))
            if failures:
                labels.add("failure")
            res[i] = P.report(failures, where, text)
        elif op[0] == "j":
            joined += 1
            text += {"get": "std.println(%d, rep(j%d()))\n" % (i, i), "fn": "std.println(%d, rep(std.catch(j%d)))\n" % (i, i)}.get(
                how, "std.println(%d, rep(h%d.join()))\n" % (i, i))
            exp += b"%d\t%s\n" % (i, res[i].encode())
        else:
            text += "std.println(again(%s))\n" % ("h%d.join" % i if how != "get" else "j%d" % i)
            exp += b"caught panic: Panic in t.hsh (line %d, column %d): attempt to call join more than once\n" % P.line_col(
                text, text.index("std.catch(j)") + 9)
            labels.add("joined twice")
    for k, fb in enumerate(case["free"] or []):
        labels.add("free running")
        text += "let word%d = \"6f6c64\"\n" % k
        text += "let f%d = &{ " % k
        text += "; ".join("hx slog '%d' fl%d 7a" % (ms, k) for ms in fb["ms"])
        if fb["big"]:
            text += "; hx lines '2' '%d' '%d' 2> big%d" % (fb["big"], k, k)
            files["big%d" % k] = P.lines(fb["big"], k)
            labels.add("large output")
        text += "; hx out $word%d > word%d ; " % (k, k)
        files["word%d" % k] = b"old"
        at = len(text)
        text += "hx kill '%d' }\n" % fb["sig"] if fb["sig"] else "hx exit '%d' }\n" % fb["status"]
        l, c = P.line_col(text, at)
        s = 128 + fb["sig"] if fb["sig"] else fb["status"]
        fb["_r"] = ("command returned non-zero(%d@t.hsh (line %d, column %d))" % (s, l, c)) if s else "nil"
        text += "word%d = \"6e6577\"\n" % k
        files["fl%d" % k] = b"z\n" * len(fb["ms"])
    for k, fb in reversed(list(enumerate(case["free"] or []))):
        joined += 1
        text += "std.println(rep(f%d.join()))\n{ hx cat < fl%d }\n" % (k, k)
        exp += fb.pop("_r").encode() + b"\n" + b"z\n" * len(fb["ms"])
    if case.get("crowd"):
        cr = case["crowd"]
        n = cr["n"]
        labels.add("crowd")
        text += "let crowd = []\n"
        want = []
        for k in range(n):
            code = cr["status"][k % len(cr["status"])]
            head = text + "std.push(crowd, &{ " + cr["pre"]
            l, c = P.line_col(head, len(head))
            text = head + "hx meet go 78 cr%d %d })\n" % (k, code)
            want.append(b"command returned non-zero(%d@t.hsh (line %d, column %d))" % (code, l, c) if code else b"nil")
            files["cr%d" % k] = b"x\n"
        files["go"] = b"go"
        text += "{ hx out 676f > go }\n"
        order = sorted(range(n), key=lambda k: (k * cr["step"]) % n if cr["step"] != 5 else (k % 5, k))
        for k in order:
            joined += 1
            text += "std.println(rep(crowd[%d].join()))\n" % k
            exp += want[k] + b"\n"
    for k, fb in enumerate(case.get("faulty") or []):
        labels.add("panics")
        text += "let p%d = &{ " % k
        for i in range(fb["before"]):
            text += "hx out '61' > pa%d_%d ; " % (k, i)
            files["pa%d_%d" % (k, i)] = b"a"
        if fb["fail"]:
            text += "hx exit '3' ? ; "
        pre, src, msg = FAULTS[fb["fault"]]
        if fb["pipe"] and not src.startswith("hx cat"):
            text += "hx exit '0' | "
        at = len(text) + len(pre)
        text += pre + src
        for i in range(fb["after"]):
            text += " ; hx out '63' > pc%d_%d" % (k, i)
            absent.append("pc%d_%d" % (k, i))
        text += " }\n"
        taken = False
        l, c = P.line_col(text, at)
        for n in fb["joins"]:
            joined += 1
            head = text + "std.println(std.catch(function () "
            text = head + "p%d.join(%s) end).description)\n" % (k, ", ".join(["1"] * n))
            jl, jc = P.line_col(text, len(head) + len("p%d.join" % k))
            if n:
                exp += b"caught panic: Panic in t.hsh (line %d, column %d): " % (jl, jc) + JOINARGS % n + b"\n"
            elif not taken:
                taken = True
                exp += b"caught panic: Panic in t.hsh (line %d, column %d): %s\n" % (l, c, msg.encode())
            else:
                exp += b"caught panic: Panic in t.hsh (line %d, column %d): attempt to call join more than once\n" % (jl, jc)
    w = P.World()
    if case["same"]:
        # Any block: what it would have yielded and written in the foreground.
        head = text + "let same = &{ "
        src, where = P.source(case["same"], len(head))
        failures, _ = w.block(case["same"])
        if not w.racy:
            joined += 1
            text = head + src + " }\nlet v = same.join()\nstd.println(rep(v))\n"
            exp += bytes(w.out.data) + P.report(failures, where, text).encode() + b"\n"
            labels.add("any block")
            files.update(w.files)
        else:
            w = P.World()
    started = sum(1 for o in case["ops"] if o[0] == "s")
    text += "std.println(std.type(h0), std.len(h0), std.type(h0.join))\n"
    exp += b"dict\t1\tfunction\n"
    if sum(1 for o in case["ops"] if o[0] == "j") < started:
        labels.add("never joined")
    return text, exp, labels, overlap, joined, files, absent, w


def show(case):
    return build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    import os
    text, exp, labels, some, n, files, absent, w = build(case)
    d = rt.fresh()
    try:
        P.setup_files(d)
        o = rt.script(text.encode("latin-1"), cwd=d)
        joined_all = "never joined" not in labels
        why = P.compare(text, o, exp, w)
        if not why and joined_all:
            w.files = files
            why = P.compare_files(d, w)
        if not why:
            why = next(("%s ran" % f for f in absent if os.path.exists(os.path.join(d, f))), None)
        labels = sorted(labels)
        if why:
            return fail({"why": why, "script": text, "expected": exp[-1500:].decode("latin-1"), "actual": o.brief()},
                        labels=labels, nontrivial=some, hang=o.hang, n=n)
        return Verdict(labels=labels, nontrivial=some, n=n)
    finally:
        rt.drop(d)


PINNED = [{"blocks": [[{"status": 0, "t": False, "stages": 1, "fs": 0}]], "ops": [["s", 0], ["j", 0]], "moves": [], "how": ["var"], "free": None, "same": None,
           "crowd": {"n": 40, "status": [0, 1], "step": -1, "pre": ""}}]
