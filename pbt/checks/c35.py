"""Generated histories of command blocks under generated limits on open files or on processes: each block yields what it would without a limit, or an error or panic that names the exhaustion at a place in the block, and nothing else happens."""
import os
import re
import resource

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import procs as P

OWN_USER = True
COUNTS = {"quick": 4000, "thorough": 100000}
RULE = ("a case is a history of 2 to 10 command blocks under a limit on open files (4 to 24) or on further processes (0 to 30); non-trivial: at "
        "least one block meets the limit, or comes after one that has; each block is one evaluation")
SAMPLE_LABELS = ("files", "processes", "exhausted", "panic", "unaffected after exhaustion", "stopped by exhaustion", "long pipeline", "many jobs", "here-strings", "must be unaffected")
EMFILE, EAGAIN = "Too many open files (os error 24)", "Resource temporarily unavailable (os error 11)"


@st.composite
def block(draw):
    how = draw(st.sampled_from(["sync", "cap", "cap", "async"]))
    data = draw(st.sampled_from([1, 2, 100, 5000, 70000]))
    return {"how": how, "stages": draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 14])), "data": data,
            "heres": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 5])), "redirs": draw(st.sampled_from([0, 0, 0, 1, 2, 6])), "dup": draw(st.integers(0, 3)) == 0,
            "more": draw(st.integers(0, 2)), "try": draw(st.integers(0, 3)) == 0}


@st.composite
def cases(draw):
    steps = draw(st.lists(st.one_of(block(), block(), block(), block(), st.builds(lambda n: {"how": "jobs", "n": n}, st.integers(2, 8))), min_size=2, max_size=10))
    res = draw(st.sampled_from(["files", "files", "processes"]))
    return {"res": res, "limit": draw(st.integers(4, 24) if res == "files" else st.one_of(st.integers(0, 6), st.integers(0, 30))), "steps": steps}


def strategy(tier):
    return cases()


SHOW = P.REPORT + """function show(k, v)
	let t = std.type(v)
	if t == "dict" then
		std.println(k, "dict", std.len(v.stdout), std.len(v.stderr), v.stdout)
	else if t == "error" then
		if std.type(v.context) == "string" then
			std.println(k, "panic", v.description)
		else
			std.println(k, "error", rep(v))
		end
	else
		std.println(k, t)
	end end
end
"""


def data_of(i, n):
    return P.lines(n, i * 1000)


def build(case):
    """Text, and per step what is expected and needed."""
    text, exp = SHOW, []
    heres = 0
    for i, s in enumerate(case["steps"]):
        line = text.count("\n") + 1
        if s["how"] == "jobs":
            # Blocks that run at the same time; each sleeps a little.
            text += "let js%d = [" % i + ", ".join("std.catch(function () &{ hx slog '20' j%d_%d '6a' } end)" % (i, k) for k in range(s["n"])) + "]\n"
            jline = text.count("\n") + 1
            text += ("for k in std.range(0, %d, 1) do show(\"%d.\" ++ std.to_string(k), if std.type(js%d[k]) == \"error\" then js%d[k] else std.catch(function () js%d[k].join() end) end) end\n"
                     % (s["n"], i, i, i, i))
            for k in range(s["n"]):
                exp.append({"key": "%d.%d" % (i, k), "lines": (line, jline), "how": "job", "files": {"j%d_%d" % (i, k): b"j\n"}, "later": [],
                            "fds": 10 + 3 * s["n"], "procs": 3 * s["n"], "threads": s["n"], "stages": 1})
            continue
        first = "hx lines 1 '%d' '%d'" % (s["data"], i * 1000)
        want = data_of(i, s["data"])
        if s["heres"]:
            first = "hx cat" + "".join(" << h%d" % k for k in range(s["heres"]))
            want = b"h%d\n" % (s["heres"] - 1)
            heres += s["heres"]
        stages = [first] + ["hx cat"] * (s["stages"] - 1)
        files, later = {}, []
        cap = s["how"] == "cap"
        for k in range(s["redirs"]):
            stages[-1] += " > r%d_%d" % (i, k)
            files["r%d_%d" % (i, k)] = b""
        if not cap or s["redirs"]:
            stages[-1] += " > o%d" % i
            files["o%d" % i] = want
        if s["dup"]:
            stages[-1] += " 2>1"
        src = " | ".join(stages)
        for k in range(s["more"]):
            src += "%s ; hx out '6c' > l%d_%d" % (" ?" if s["try"] and not k else "", i, k)
            later.append(("l%d_%d" % (i, k), s["try"] and not k))
        body = {"sync": "{ %s }", "cap": "${ %s }", "async": "let j = &{ %s } j.join()"}[s["how"]] % src
        text += "show(\"%d\", std.catch(function () %s end))\n" % (i, body)
        for f, _ in later:
            files[f] = b"l"
        n = s["stages"]
        exp.append({"key": str(i), "lines": (line, line), "how": s["how"], "files": files, "later": later, "want": b"" if not cap or s["redirs"] else want,
                    "main": "o%d" % i if "o%d" % i in files else None,
                    "fds": 12 + n + (3 if cap else 0) + s["redirs"] + 3 * heres, "procs": n + (2 if cap else 0) + (1 if s["how"] == "async" else 0) + s["heres"],
                    "threads": (2 if cap else 0) + (1 if s["how"] == "async" else 0) + s["heres"], "stages": n})
    text += "std.sleep(5)\n{ hx probe probe.log }\nstd.println(\"end\")\n"
    return text, exp


def show(case):
    return "%s: %d\n%s" % (case["res"], case["limit"], build(case)[0].encode("latin-1").decode("utf-8", "backslashreplace"))


def exhaustion(s, line, msg):
    """Whether a result reports an exhaustion at a place on the line."""
    pos = r"t\.hsh \(line %s, column \d+\)" % ("(?:%d|%d)" % line)
    one = r"%s\(127@%s\)" % (re.escape(msg), pos)
    dead = r"command returned non-zero\((?:141|74)@%s\)" % pos
    pipe = r"(?:%s|Some commands failed in the pipeline\[(?:(?:%s|%s),)*%s,(?:(?:%s|%s),)*\])" % (one, one, dead, one, one, dead)
    return re.fullmatch(r"(?:%s|Some commands failed in the block\[(?:(?:%s),)+\])" % (pipe, pipe), s) is not None


def judge(case, exp, o, d, labels):
    msg = EMFILE if case["res"] == "files" else EAGAIN
    if o.hang:
        return "hang"
    if o.rc != 0:
        return "exit status %r" % o.rc
    if o.err:
        return "standard error is %r" % o.err[:200]
    at, met, threads = 0, False, 0
    out = o.out

    def content(f):
        try:
            with open(os.path.join(d, f), "rb") as fh:
                return fh.read()
        except FileNotFoundError:
            return None
    for e in exp:
        head = e["key"].encode() + b"\t"
        if not out.startswith(head, at):
            return "block %s: output is %r" % (e["key"], out[at:at + 100])
        at += len(head)
        normal = b"nil\n"
        if e["how"] == "cap":
            normal = b"dict\t%d\t0\t" % len(e["want"]) + e["want"] + b"\n"
        must = e["fds"] <= case["limit"] if case["res"] == "files" else e["procs"] + threads <= case["limit"]
        threads += e["threads"]
        if must:
            labels.add("must be unaffected")
        if out.startswith(normal, at):
            at += len(normal)
            for f, c in e["files"].items():
                if content(f) != c:
                    return "block %s: file %s holds %r" % (e["key"], f, (content(f) or b"")[:60])
            if met:
                labels.add("unaffected after exhaustion")
            continue
        end = out.find(b"\n", at)
        line = out[at:end].decode("latin-1")
        if must:
            return "block %s needs little, but yields %r" % (e["key"], line)
        met = True
        labels.add("exhausted")
        at = end + 1
        kind, _, rest = line.partition("\t")
        if kind == "panic":
            labels.add("panic")
            if not re.fullmatch(r"caught panic: Panic in t\.hsh \(line (?:%d|%d), column \d+\): %s" % (e["lines"] + (re.escape(msg),)), rest):
                return "block %s yields %r" % (e["key"], line)
        elif kind != "error" or not exhaustion(rest, e["lines"], msg):
            return "block %s yields %r" % (e["key"], line)
        # What follows a failed pipeline that is not marked with ? does not run.
        before = e.get("main")
        for f, free in e["later"]:
            if content(f):
                if kind == "panic":
                    return "block %s: panicked, but %s was written" % (e["key"], f)
                if before and not free and content(before) != e["files"][before]:
                    return "block %s: %s was written, after %r" % (e["key"], f, line)
            else:
                labels.add("stopped by exhaustion")
            before = f
    if out[at:] != b"end\n":
        return "output ends with %r" % out[at:][:100]
    pro = content("probe.log")
    if pro is None:
        if case["limit"] >= (12 if case["res"] == "files" else 2):
            return "the last command did not run"
    elif pro != b"clean\n" and case["limit"] >= 8:
        return "left in the interpreter: %s" % pro.decode("latin-1")
    return None


def evaluate(case, rt):
    text, exp = build(case)
    labels = {case["res"]}
    if case["res"] == "processes" and not getattr(rt, "own_user", False):
        return Verdict(labels=["processes (not limited: not root)"], nontrivial=False, n=0)
    for s in case["steps"]:
        if s["how"] == "jobs":
            labels.add("many jobs")
        else:
            if s["stages"] > 5:
                labels.add("long pipeline")
            if s["heres"]:
                labels.add("here-strings")
    what = resource.RLIMIT_NOFILE if case["res"] == "files" else resource.RLIMIT_NPROC
    n = case["limit"] if case["res"] == "files" else case["limit"] + 1 + len(os.listdir("/proc/self/task"))
    d = rt.fresh()
    try:
        o = rt.script(text.encode("latin-1"), cwd=d, preexec=lambda: resource.setrlimit(what, (n, n)))
        why = judge(case, exp, o, d, labels)
    finally:
        rt.drop(d)
    some = "exhausted" in labels
    labels = sorted(labels)
    if why:
        return fail({"why": why, "limit": n, "script": text, "actual": o.brief()}, labels=labels, nontrivial=some, hang=o.hang, n=len(exp))
    return Verdict(labels=labels, nontrivial=some, n=len(exp))
