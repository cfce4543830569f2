"""Generated histories of draws, seeds and other work: every draw is checked against its range, long runs for coverage of the range, and equal histories after equal seeds (in one process and in two) for equal numbers."""
from hypothesis import strategies as st

from core.engine import Verdict, fail

COUNTS = {"quick": 3000, "thorough": 80000}
RULE = ("a case is a history of up to 8 runs of draws, replayed after seeding; non-trivial: two kinds of draws or two different ranges, and a seed; each drawn number is one evaluation")
SAMPLE_LABELS = ("float", "single", "small range", "covered", "wide range", "full range", "negative range", "edge of the integers", "reversed", "seeded", "unseeded", "interleaved work", "two seeds", "in a callee")
ASSUMPTIONS = ["coverage, even spread and distinctness are demanded only of runs so long that failing it by chance has a probability below 1e-12"]

MIN, MAX = -2 ** 63, 2 ** 63 - 1
edge = st.sampled_from([MIN, MIN + 1, -2 ** 62, -2 ** 32 - 1, -2 ** 31, -2 ** 31 - 1, -65536, -256, -1, 0, 1, 255, 256, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62, MAX - 1, MAX])
i64 = st.integers(0, 2).flatmap(lambda k: [edge, st.integers(-50, 50), st.integers(MIN, MAX)][k])
width = st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 25, 31, 63, 99])


@st.composite
def run(draw):
    k = draw(st.sampled_from(["small"] * 5 + ["wide"] * 4 + ["float"] * 3 + ["reversed"]))
    via = draw(st.sampled_from(["", "", "", "f", "bind", "catch"]))
    if k == "float":
        return ["float", draw(st.sampled_from([1, 2, 20, 450])), via]
    if k == "small":
        w = draw(width)
        m = draw(i64)
        m = min(m, MAX - w)
        return ["int", m, m + w, draw(st.sampled_from([1, 5, 0, 0, 0])) or 60 * (w + 1), via]
    m, n = draw(i64), draw(i64)
    f = draw(st.integers(0, 7))
    if k == "wide" and f < 3:
        # Ranges with more numbers than half of the integers, or all of them.
        m, n = [(MIN, MAX), (MIN, max(m, n)), (min(m, n), MAX)][f]
    if k == "wide":
        return ["int", min(m, n), max(m, n), draw(st.sampled_from([1, 3, 30, 450])), via]
    if m == n:
        m, n = m if m < MAX else 0, m - 1 if m > MIN else -1
    return ["reversed", max(m, n), min(m, n), via]


NOISE = ["let t = [ 1, @[ a: 2 ] ]\nstd.push(t, t)", "{ hx exit 0 }", "${ hx out 61 }", "std.catch(function () std.panic(1) end)", "std.hex.encode(\"abc\")", "for i in std.range(0, 50, 1) do [ i ] end",
         "std.sort([ 3, 1, 2 ])", "@[ x: std.env(\"PATH\") ]", "std.sleep(1)"]


@st.composite
def case_s(draw):
    runs = draw(st.lists(run(), min_size=1, max_size=8))
    seeds = draw(st.sampled_from([0, 1, 1, 1, 2]))
    return {"runs": runs, "seeds": [draw(i64) for _ in range(seeds)], "noise": draw(st.sampled_from([None, None] + list(range(len(NOISE))))), "again": draw(st.integers(0, 3)) == 0}


def strategy(tier):
    return case_s()


def num(i):
    return str(i) if i >= 0 else "(-9223372036854775807 - 1)" if i == MIN else "(-%d)" % -i


def build(case):
    text = ["let k = 0"]
    labels = set()
    lines = 0
    text.append("function history()")
    for j, r in enumerate(case["runs"]):
        if r[0] == "reversed":
            labels.add("reversed")
            text.append("  std.println(std.catch(function () std.randint(%s, %s) end).description)" % (num(r[1]), num(r[2])))
            continue
        f = "std.rand()" if r[0] == "float" else "std.randint(%s, %s)" % (num(r[1]), num(r[2]))
        via = r[-1]
        if via:
            labels.add("in a callee")
        k = r[1] if r[0] == "float" else r[3]
        labels.update(classify(r))
        pre = ""
        g = "g%d" % j
        if via == "f":
            pre, f = "  let %s = function () %s end\n" % (g, f), g + "()"
        elif via == "bind":
            pre, f = ("  let %s = std.bind(nil, std.rand)\n" % g, g + "()") if r[0] == "float" else ("  let %s = std.bind(@[], std.randint)\n" % g, "%s(%s, %s)" % (g, num(r[1]), num(r[2])))
        elif via == "catch":
            f = "std.catch(function () %s end)" % f
        text.append(pre + "  k = 0\n  while k < %d do std.println(%s)\n  k = k + 1 end" % (k, f))
    text.append("end")
    noise = NOISE[case["noise"]] if case["noise"] is not None else ""
    if noise:
        labels.add("interleaved work")
    if not case["seeds"]:
        labels.add("unseeded")
        text.append("history()")
    else:
        labels.add("seeded")
        if len(case["seeds"]) > 1:
            labels.add("two seeds")
        order = case["seeds"] + case["seeds"]
        for i, s in enumerate(order):
            # Work that draws nothing, before the second round only, changes nothing.
            text.append("std.randseed(%s)\n%s\nhistory()\nstd.println(\"--\")" % (num(s), noise if i >= len(order) // 2 else ""))
            if i >= len(order) // 2:
                noise = noise.replace("let t =", "t =")
    return "\n".join(text) + "\n", labels


def classify(r):
    if r[0] == "float":
        return {"float"}
    w = r[2] - r[1]
    out = set()
    if w == 0:
        out.add("single")
    out.add("small range" if w < 100 else "wide range")
    if w == MAX - MIN:
        out.add("full range")
    if r[2] < 0:
        out.add("negative range")
    if r[1] == MIN or r[2] == MAX:
        out.add("edge of the integers")
    if w < 100 and r[3] >= 60 * (w + 1):
        out.add("covered")
    return out


def check_history(runs, lines):
    """Returns (number of draws, complaint)."""
    i = 0
    for j, r in enumerate(runs):
        where = "run %d (%s): " % (j, r)
        if r[0] == "reversed":
            if i >= len(lines):
                return i, where + "missing"
            if not lines[i].startswith("caught panic: Panic in ") or not lines[i].endswith("invalid value (%d), expected integer not lower than the lower bound" % r[2]):
                return i, where + "a reversed range gives %r" % lines[i]
            i += 1
            continue
        k = r[1] if r[0] == "float" else r[3]
        xs = lines[i:i + k]
        i += k
        if len(xs) < k:
            return i, where + "only %d numbers" % len(xs)
        try:
            if r[0] == "float":
                vs = [float(x) for x in xs]
                if any("." not in x and "e" not in x for x in xs):
                    return i, where + "not a float"
            else:
                vs = [int(x) for x in xs]
        except ValueError:
            return i, where + "not numbers: %r" % xs[:5]
        lo, hi = (0.0, 1.0) if r[0] == "float" else (r[1], r[2])
        bad = [v for v in vs if v < lo or (v >= 1 if r[0] == "float" else v > hi)]
        if bad:
            return i, where + "outside the range: %r" % bad[:5]
        if r[0] == "float":
            if k >= 450:
                missed = [b for b in range(8) if not any(b <= v * 8 < b + 1 for v in vs)]
                if missed:
                    return i, where + "eighths never drawn: %r" % missed
                if len(set(vs)) < 400:
                    return i, where + "only %d different floats" % len(set(vs))
                if len({v * 2 ** 24 % 1 for v in vs}) < 100:
                    return i, where + "floats of 24 bits only"
        elif hi - lo < 100:
            if k >= 60 * (hi - lo + 1):
                missed = set(range(lo, hi + 1)) - set(vs)
                if missed:
                    return i, where + "never drawn: %r" % sorted(missed)[:5]
                # Each number is expected 60 times or more.
                mean = k / (hi - lo + 1)
                odd = {v: vs.count(v) for v in set(vs) if hi > lo and not mean / 7 < vs.count(v) < 3 * mean}
                if odd:
                    return i, where + "unevenly drawn (number: times): %r" % odd
        if hi - lo >= 2 ** 60 and r[0] == "int" and len(set(vs)) < k:
            return i, where + "drawn twice: %r" % [v for v in set(vs) if vs.count(v) > 1][:5]
        if r[0] == "int" and hi - lo >= 2 ** 20 and k >= 450:
            # Every low bit is as often 0 as 1, and every remainder is drawn.
            for b in range(11):
                ones = sum(v >> b & 1 for v in vs)
                if not k / 4 < ones < 3 * k / 4:
                    return i, where + "bit %d is 1 in %d of %d numbers" % (b, ones, k)
            for m in (3, 5, 7, 10):
                missed = set(range(m)) - {v % m for v in vs}
                if missed:
                    return i, where + "remainders modulo %d never drawn: %r" % (m, sorted(missed))
        if r[0] == "int" and hi - lo >= 100 and k >= 450:
            w = hi - lo + 1
            missed = [b for b in range(8) if not any(b * w <= (v - lo) * 8 < (b + 1) * w for v in vs)]
            if missed:
                return i, where + "eighths of the range never drawn: %r" % missed
    if i != len(lines):
        return i, "%d more lines" % (len(lines) - i)
    return i, None


def show(case):
    return build(case)[0]


def evaluate(case, rt):
    text, labels = build(case)
    o = rt.script(text.encode())
    why, n = None, 0
    nt = bool(case["seeds"]) and len({str(r[:3]) for r in case["runs"]}) > 1
    if o.hang or o.rc != 0 or o.err:
        why = "hang" if o.hang else "exit status %r" % o.rc
    else:
        out = o.out.decode("latin-1")
        if case["seeds"]:
            blocks = [b.splitlines() for b in out.split("--\n")]
            if blocks.pop() or len(blocks) != 2 * len(case["seeds"]):
                why = "%d histories instead of %d" % (len(blocks), 2 * len(case["seeds"]))
        else:
            blocks = [out.splitlines()]
        for b in blocks:
            if why:
                break
            k, why = check_history(case["runs"], b)
            n += k
        if not why and case["seeds"]:
            h = len(case["seeds"])
            for i in range(h):
                if blocks[i] != blocks[i + h]:
                    d = next(j for j, (x, y) in enumerate(zip(blocks[i], blocks[i + h])) if x != y)
                    why = "seed %d: draw %d gives %s the first time and %s the second" % (case["seeds"][i], d, blocks[i][d], blocks[i + h][d])
                    break
                if i and case["seeds"][i] == case["seeds"][0] and blocks[i] != blocks[0]:
                    why = "equal seeds, different numbers"
            if not why and case["again"]:
                labels.add("two processes")
                p = rt.script(text.encode())
                if p.out != o.out:
                    why = "a second process draws other numbers after the same seed"
    labels = sorted(labels)
    if why:
        return fail({"why": why, "script": text[:3000], "actual": o.brief()}, labels=labels, nontrivial=nt, hang=o.hang, n=max(n, 1))
    return Verdict(labels=labels, nontrivial=nt, n=max(n, 1))
