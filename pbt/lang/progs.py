"""Running a generated program against the binary and against the reference interpreter."""
import json

from core.engine import Verdict, fail
from .interp import Budget, Interp
from .syntax import render
from .values import canonical


def std(name, *args):
    return ["call", ["dot", ["id", "std"], name], list(args)]


def println(*args):
    return ["expr", std("println", *args)]


def unshare(prog):
    """Every node a distinct object: positions are recorded per node."""
    return json.loads(json.dumps(prog))


def judge(prog, rt, labels=(), nontrivial=None, rendered=None, stdin=b"", check_stderr=True, key=None,
          unordered_ok=False, steps=200000):
    """Verdict for one program: stdout, exit status and panic text agree with the model's."""
    if rendered is None:
        prog = unshare(prog)
    r = rendered or render(prog)
    try:
        it = Interp(prog, r, steps=steps).run()
    except Budget:
        return Verdict(True, labels=list(labels) + ["skipped: too long for the model"], nontrivial=False)
    if it.unordered and not unordered_ok:
        return Verdict(True, labels=list(labels) + ["skipped: depends on the order of a dict"], nontrivial=False)
    o = rt.script(r.text, stdin=stdin)
    labels = list(labels)
    labels += sorted(it.counts)
    if it.panic:
        labels.append("panics")
    nt = nontrivial(it) if nontrivial else True
    why = compare(it, o, check_stderr)
    if why:
        return fail({"why": why, "script": r.text.decode("utf-8", "backslashreplace"),
                     "expected": {"rc": it.status, "stdout": it.stdout.decode("utf-8", "backslashreplace")[-1500:],
                                  "stderr": it.stderr.decode("utf-8", "backslashreplace")},
                     "actual": o.brief()}, labels=labels, nontrivial=nt, hang=o.hang, key=key)
    return Verdict(True, labels=labels, nontrivial=nt, key=key)


def same_chunks(chunks, actual):
    """Compares what was printed, chunk by chunk: the entries of a dict are displayed in any order, which
    leaves the number of bytes as it is."""
    i = 0
    for c in chunks:
        a = actual[i:i + len(c)]
        i += len(c)
        if a != c and (b"@[ " not in c or (canonical(a) != canonical(c) and sorted(a) != sorted(c))):
            return False
    return i == len(actual)


def same_text(expected, actual):
    if expected == actual:
        return True
    return canonical(expected) == canonical(actual)


def same_panic(expected, actual):
    if same_text(expected, actual):
        return True
    if expected.endswith(b"division by zero\n"):
        # The minimum integer divided by -1: "overflow" would be as right.
        return actual == expected[:-len(b"division by zero\n")] + b"integer overflow\n"
    return False


def compare(it, o, check_stderr=True):
    if o.hang:
        return "hang"
    if o.rc != it.status:
        return "exit status %r instead of %r" % (o.rc, it.status)
    if not same_chunks(it.out, o.out):
        return "standard output differs"
    if check_stderr:
        if it.panic is None:
            if o.err != b"":
                return "unexpected standard error"
        elif not same_panic(it.stderr, o.err):
            return "panic message differs"
    return None


def expect(text, exp, rt, labels=(), nontrivial=True, n=1, rc=0, err=b"", key=None, **kw):
    """Verdict for a script (latin-1 text) with exactly known output."""
    o = rt.script(text.encode("latin-1") if isinstance(text, str) else text, **kw)
    why = None
    if o.hang:
        why = "hang"
    elif o.rc != rc:
        why = "exit status %r instead of %r" % (o.rc, rc)
    elif o.out != exp:
        k = next((i for i, (a, b) in enumerate(zip(o.out, exp)) if a != b), min(len(o.out), len(exp)))
        why = "standard output differs at byte %d of %d (actual: %d bytes): %r instead of %r" % (
            k, len(exp), len(o.out), o.out[max(0, k - 60):k + 60], exp[max(0, k - 60):k + 60])
    elif err is not None and o.err != err:
        why = "standard error is %r instead of %r" % (o.err[:300], err[:300])
    if why:
        return fail({"why": why, "script": text if isinstance(text, str) else text.decode("latin-1"),
                     "expected": exp[-1500:].decode("latin-1"), "actual": o.brief()},
                    labels=labels, nontrivial=nontrivial, hang=o.hang, n=n, key=key)
    return Verdict(labels=labels, nontrivial=nontrivial, n=n, key=key)
