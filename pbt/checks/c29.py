"""Generated histories of printing values and running commands, with standard output connected to a pipe, a file, a terminal or a slow reader, against the exact bytes in program order."""
import os
import pty
import subprocess
import termios
import threading
import time

from hypothesis import strategies as st

from core.engine import Verdict, fail
from core.runner import Outcome
from lang.interp import Interp
from lang.progs import same_chunks, std, unshare
from lang.syntax import render, str_lit
from lang.vals import FUN_E, any_bytes, floats, float_expr, raw_strings, values, with_functions

COUNTS = {"quick": 4500, "thorough": 130000}
RULE = ("a case is a script of 1 to 12 printing actions and commands run with one kind of standard output; non-trivial: it has a command between two prints, "
        "or at least 3 printed values, or a collection, or more than 1000 bytes of output")
SAMPLE_LABELS = ("values", "collection", "raw bytes", "command between", "capture", "async", "exec", "ends by panic", "ends by exit", "pipe", "file", "terminal", "slow reader", "append",
                 "full device", "large", "evaluation order", "closed")
ASSUMPTIONS = ["the entries of a displayed dict may be in any order", "a script that panics when its output cannot be written has reported the failure"]

byte = any_bytes.map(lambda b: ["byte", b])
blob = st.one_of(st.binary(max_size=30).map(lambda b: b.decode("latin-1")), raw_strings, st.sampled_from(["\n", "\n\n", "a\nb", "\r\n", "\0", "x\n" * 600, "y" * 1023, "y" * 1024, "y" * 1025, "q" * 5000, "\xff\xfe"]))
nested = st.integers(1, 130).map(lambda n: nest(n))
longarr = st.sampled_from([7, 20, 21, 33, 100, 255, 256, 257, 1000, 1001, 1024, 1025, 2500]).flatmap(lambda n: st.sampled_from([
    ["arr", [["int", i] for i in range(n)]], ["dict", [["k%d" % i, ["int", i]] for i in range(n)]], ["arr", [["str", "x" * n], ["arr", [["str", "y" * n]]]]],
    std("error", ["str", "e" * n], ["arr", [["nil"]] * n]), ["arr", [["arr", [["int", i]]] for i in range(n)]]]))


def nest(n):
    e = ["int", n]
    for i in range(n):
        e = ["arr", [e]] if i % 3 else ["dict", [["k", e]]]
    return e


# Ordinary text with an unusual byte or character at its start, end or middle.
odd = st.builds(lambda a, c, b: ["str", a + c + b], st.sampled_from(["", "a", "ab c"]), st.one_of(
    st.sampled_from(["\0", "\0\0", "\n", "\t", "\r", "\x1b", "\x7f", "\"", "'", "\\", " ", "\xc2\xa0", "\xcc\x81", "\xe2\x80\x8b", "\xef\xbb\xbf", "\xff", "\xc3", "\xf0\x9f\x98\x80", "\xed\xa0\x80"]),
    st.integers(0, 255).map(chr)), st.sampled_from(["", "", "b", " d"]))
within = st.lists(st.one_of(byte, odd, odd), min_size=1, max_size=3).flatmap(lambda bs: st.sampled_from([
    ["arr", bs], ["dict", [["k%d" % i, b] for i, b in enumerate(bs)]], std("error", ["str", "e"], bs[0]), ["arr", [["arr", bs], ["dict", [["b", bs[0]]]]]], std("error", ["str", "e"], ["arr", bs])]))


value = st.integers(0, 10).flatmap(lambda k: [
    with_functions(values()), values(raw=False), values(max_leaves=20), blob.map(lambda s: ["str", s]), blob.map(lambda s: ["str", s]), byte, floats.map(float_expr), nested, longarr,
    values(raw=False), within][k]).filter(lambda e: not has_fun(e))


def has_fun(e):
    """Hush functions display their place, which the model of a part of the script does not know."""
    if isinstance(e, list):
        return e[:1] == ["func"] or any(has_fun(x) for x in e)
    return False


@st.composite
def action(draw):
    k = draw(st.sampled_from(["print"] * 5 + ["println"] * 5 + ["cmd"] * 4 + ["pipe", "capture", "async", "loop", "order", "noise", "string", "cmds", "prompt"]))
    if k in ("print", "println") and draw(st.integers(0, 39)) == 0:
        # Many values.
        few = draw(st.lists(value, min_size=1, max_size=3))
        n = draw(st.one_of(st.integers(6, 40), st.sampled_from([63, 64, 65, 127, 128, 129, 255, 256, 257, 300])))
        return [k, [few[i // 10 % len(few)] if i % 10 == 0 and n < 50 else ["int", i] for i in range(n)]]
    if k in ("print", "println"):
        return [k, draw(st.lists(value, max_size=draw(st.sampled_from([1, 1, 2, 5]))))]
    if k == "loop":
        return [k, draw(st.integers(1, 300)), draw(blob), draw(st.booleans())]
    if k == "string":
        return [k, draw(st.sampled_from([8191, 8192, 8193, 65535, 65536, 65537, 200000])), draw(st.booleans())]
    return [k, draw(st.binary(max_size=12)).hex()]


SINKS = ["pipe"] * 6 + ["file"] * 5 + ["terminal"] * 3 + ["append", "append", "slow", "full", "closed", "merged"]


def strategy(tier):
    return st.fixed_dictionaries({"acts": st.lists(action(), min_size=1, max_size=12), "end": st.sampled_from(["normal"] * 5 + ["panic", "exit", "exec", "exec0", "function", "static"]),
                                  "sink": st.sampled_from(SINKS)})


def displayed(name, args):
    """What the model prints for one call."""
    prog = unshare([["expr", std(name, *args)]])
    r = render(prog)
    it = Interp(prog, r).run()
    return r.text.decode("latin-1"), it.out


def build(case):
    text, chunks, labels = "", [], {"values"}
    printed = cmd = 0
    vals = 0
    for n, a in enumerate(case["acts"]):
        k = a[0]
        if k in ("print", "println"):
            t, c = displayed(k, a[1])
            text += t
            chunks += c
            vals += len(a[1])
            if cmd:
                labels.add("command between")
            printed += 1
            if any(e[0] in ("arr", "dict") for e in a[1]):
                labels.add("collection")
            if any(e[0] in ("byte", "str") and not printable(e) for e in a[1]):
                labels.add("raw bytes")
        elif k == "loop":
            text += "for i%d in std.range(0, %d, 1) do std.%s(i%d, %s) end\n" % (n, a[1], "println" if a[3] else "print", n, str_lit(a[2]))
            for i in range(a[1]):
                chunks.append(b"%d\t%s%s" % (i, a[2].encode("latin-1"), b"\n" if a[3] else b""))
            labels.add("large")
        elif k == "string":
            s = b"".join(b"%07d\n" % i for i in range(a[1] // 8)) + b"z" * (a[1] % 8)
            text += "std.%s(%s)\n" % ("println" if a[2] else "print", str_lit(s.decode()))
            chunks.append(s + (b"\n" if a[2] else b""))
            labels.add("large")
        elif k == "order":
            text += "function f%d(x) std.print(\"<\", x)\nreturn x end\nstd.println(f%d(1), [ f%d(2), f%d(\"3\") ], f%d(nil))\n" % (n, n, n, n, n)
            chunks.append(b"<\t1<\t2<\t3<\tnil1\t[ 2, \"3\" ]\tnil\n")
            labels.add("evaluation order")
        elif k == "prompt":
            text += "std.read(%s)\n" % str_lit(bytes.fromhex(a[1]).decode("latin-1"))
            chunks.append(bytes.fromhex(a[1]))
        else:
            h = a[1] or "''"
            b = bytes.fromhex(a[1])
            cmd += printed > 0
            if k == "cmd":
                text += "{ hx out '%s' }\n" % a[1]
                chunks.append(b)
            elif k == "cmds":
                text += "{ hx out '%s'; hx out 3b; hx err 65 2> /dev/null; hx out '%s' }\n" % (a[1], a[1])
                chunks.append(b + b";" + b)
            elif k == "pipe":
                text += "{ hx out '%s' | hx cat }\n" % a[1]
                chunks.append(b)
            elif k == "capture":
                text += "let c%d = ${ hx out '%s' }\nstd.print(c%d.stdout)\n" % (n, a[1], n)
                chunks.append(b)
                labels.add("capture")
            elif k == "async":
                text += "let j%d = &{ hx out '%s' }\nj%d.join()\n" % (n, a[1], n)
                chunks.append(b)
                labels.add("async")
            else:
                text += "{ hx out '%s' > /dev/null }\n" % a[1]
    rc, err = 0, b""
    e = case["end"]
    if e == "panic":
        text += "std.print(\"last\")\nstd.panic(5)\n"
        chunks.append(b"last")
        rc, err = 127, b"Panic in "
        labels.add("ends by panic")
    elif e == "exit":
        text += "std.print(\"last\")\nstd.exit(7)\n"
        chunks.append(b"last")
        rc = 7
        labels.add("ends by exit")
    elif e in ("exec", "exec0"):
        text += "std.print(\"last\")\n{ %s }\n" % ("exec hx out 65" if e == "exec" else "exec0 hx hx out 65")
        chunks.append(b"laste")
        labels.add("exec")
    elif e == "function":
        text += "function g(n) std.print(n)\nif n > 0 then return g(n - 1) end\nstd.exit(3) end\ng(12)\n"
        chunks.append(b"1211109876543210")
        rc = 3
        labels.add("ends by exit")
    nt = "command between" in labels or vals >= 3 or "collection" in labels or sum(map(len, chunks)) > 1000
    return text, chunks, rc, err, labels, nt


def printable(e):
    if e[0] == "byte":
        return 32 <= e[1] < 127
    return e[1].isascii() and e[1].isprintable()


def run(case, rt, text):
    sink = case["sink"]
    d = rt.fresh()
    try:
        with open(os.path.join(d, "t.hsh"), "wb") as f:
            f.write(text.encode("latin-1"))
        args = dict(cwd=d, env=rt.env(), stdin=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        cmd = [rt.hush, "t.hsh"]
        if sink in ("pipe", "slow", "merged"):
            if sink == "merged":
                args["stderr"] = subprocess.STDOUT
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, **args)
            if sink == "slow":
                time.sleep(0.03)
            return wait(p, rt)
        if sink in ("file", "append"):
            path = os.path.join(d, "out")
            with open(path, "wb") as f:
                f.write(b"before" if sink == "append" else b"")
            with open(path, "ab" if sink == "append" else "wb") as f:
                p = subprocess.Popen(cmd, stdout=f, **args)
            o = wait(p, rt)
            with open(path, "rb") as f:
                o.out = f.read()
            if sink == "append":
                if not o.out.startswith(b"before"):
                    o.out = b"overwritten: " + o.out
                o.out = o.out[6:]
            return o
        if sink == "full":
            with open("/dev/full", "wb") as f:
                p = subprocess.Popen(cmd, stdout=f, **args)
            return wait(p, rt)
        if sink == "closed":
            r, w = os.pipe()
            os.close(r)
            p = subprocess.Popen(cmd, stdout=w, **args)
            os.close(w)
            return wait(p, rt)
        m, s = pty.openpty()
        attrs = termios.tcgetattr(s)
        attrs[1] &= ~termios.OPOST
        attrs[3] &= ~termios.ECHO
        termios.tcsetattr(s, termios.TCSANOW, attrs)
        p = subprocess.Popen(cmd, stdout=s, **args)
        os.close(s)
        got = []

        def reader():
            while True:
                try:
                    b = os.read(m, 65536)
                except OSError:
                    break
                if not b:
                    break
                got.append(b)
        t = threading.Thread(target=reader, daemon=True)
        t.start()
        o = wait(p, rt)
        t.join(5)
        os.close(m)
        o.out = b"".join(got)
        return o
    finally:
        rt.drop(d)


def wait(p, rt):
    try:
        out, err = p.communicate(timeout=rt.timeout)
        return Outcome(p.returncode, out or b"", err or b"")
    except subprocess.TimeoutExpired:
        rt._killpg(p)
        out, err = p.communicate()
        return Outcome(None, out or b"", err or b"", hang=True)
    finally:
        rt._killpg(p)


def show(case):
    return "sink: %s\n%s" % (case["sink"], build(case)[0][:4000])


def evaluate(case, rt):
    text, chunks, rc, err, labels, nt = build(case)
    sink = case["sink"]
    rt.runs += 1
    o = run(case, rt, text)
    labels.add({"slow": "slow reader", "full": "full device"}.get(sink, sink))
    total = sum(map(len, chunks))
    why = None
    if o.hang:
        why = "hang"
    elif sink in ("full", "closed"):
        # Commands fail by themselves there; what the script prints must fail too. Only commands' output may be lost.
        own = any(a[0] in ("print", "println") and b"".join(displayed(a[0], a[1])[1]) for a in case["acts"])
        if own and o.rc == 0:
            why = "output was lost without a failure"
        elif o.rc in (101, 134) or (o.rc is not None and o.rc < 0 and case["end"] not in ("exec", "exec0")):
            why = "died with status %r" % o.rc
    elif o.rc != rc:
        why = "exit status %r instead of %r" % (o.rc, rc)
    elif sink == "merged":
        if err:
            i = o.out.rfind(b"Panic in ")
            o = Outcome(o.rc, o.out[:i], o.out[i:]) if i >= 0 else o
        if not same_chunks(chunks, o.out):
            why = "the output differs"
        elif not o.err.startswith(err):
            why = "the panic message is missing at the end"
    elif not same_chunks(chunks, o.out):
        exp = b"".join(chunks)
        k = next((i for i, (a, b) in enumerate(zip(o.out, exp)) if a != b), min(len(o.out), len(exp)))
        why = "the output differs at byte %d of %d (actual: %d bytes): %r instead of %r" % (k, total, len(o.out), o.out[max(0, k - 40):k + 40], exp[max(0, k - 40):k + 40])
    elif not o.err.startswith(err) or (not err and o.err):
        why = "unexpected standard error"
    labels = sorted(labels)
    if why:
        return fail({"why": why, "sink": sink, "script": text[-3000:], "expected": b"".join(chunks)[-1500:].decode("latin-1"), "actual": o.brief()}, labels=labels, nontrivial=nt, hang=o.hang)
    return Verdict(labels=labels, nontrivial=nt, n=len(case["acts"]))
