"""The search engine shared by all checks: Hypothesis generates cases (plain JSON data), the check
module evaluates each against the real binary and an oracle, failures are shrunk and saved."""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import stat
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as build_mod
from .runner import Infra, Runner, limit_self

VERIF = build_mod.VERIF
WORKERS = int(os.environ.get("HUSH_PBT_WORKERS", "8"))
SHRINK_SECONDS = 45.0


class Verdict:
    """Result of evaluating one case."""
    __slots__ = ("ok", "detail", "labels", "nontrivial", "n", "key", "hang")

    def __init__(self, ok=True, detail=None, labels=(), nontrivial=True, n=1, key=None, hang=False):
        self.ok = ok                    # did the property hold?
        self.detail = detail            # JSON-able explanation if not
        self.labels = list(labels)      # classification of the case
        self.nontrivial = nontrivial    # per the check's RULE
        self.n = n                      # how many oracle evaluations it contains
        self.key = key                  # what makes it distinct (default: the case itself)
        self.hang = hang


def fail(detail, **kw):
    return Verdict(False, detail, **kw)


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:24]


def load_check(pid):
    mod = importlib.import_module("checks." + pid.lower())
    if getattr(mod, "WIDE", None) and not getattr(mod, "wide_added", False):
        # Programs of unusual size, beside the check's own cases.
        from lang import wide
        wide.add_to(mod)
        mod.wide_added = True
    return mod


def run_case(mod, case, rt):
    """Evaluates a case; a crash of the oracle is an error of the machinery, not a verdict."""
    v = mod.evaluate(case, rt)
    if v.hang:
        # Only a hang that persists with much more time is a verdict.
        old = rt.timeout
        try:
            rt.timeout = old * 2
            for _ in range(2):
                w = mod.evaluate(case, rt)
                if not w.hang:
                    return w
        finally:
            rt.timeout = old
    return v


# ---------------------------------------------------------------------------------------------
def make_scratch():
    base = tempfile.mkdtemp(prefix="hush-pbt-")
    os.chmod(base, 0o755)
    return base


def prepare(base):
    """Builds hush and the helper command, and copies both in the scratch directory."""
    binary = build_mod.build()
    bindir = os.path.join(base, "bin")
    hdir = os.path.join(base, "cmd")
    os.mkdir(bindir)
    os.mkdir(hdir)
    hush = os.path.join(bindir, "hush")
    shutil.copy2(binary, hush)
    os.chmod(hush, 0o755)
    hx = os.path.join(hdir, "hx")
    p = subprocess.run(
        ["gcc", "-O1", "-o", hx, os.path.join(VERIF, "pbt", "helper", "hx.c")],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
    )
    if p.returncode != 0:
        raise Infra("cannot build the helper command: " + p.stdout.decode(errors="replace"))
    os.chmod(hx, 0o755)
    return hush, hdir


def drop_privileges(uid=65534):
    """The code under test runs as nobody: whatever it does, only scratch files are reachable."""
    if os.getuid() != 0:
        return False
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(uid)
        return True
    except OSError:
        return False


def worker_dir(base, name):
    d = os.path.join(base, name)
    os.mkdir(d)
    try:
        os.chown(d, 65534, 65534)
    except OSError:
        os.chmod(d, 0o777)
    os.chmod(d, 0o755 if os.stat(d).st_uid == 65534 else 0o777)
    return d


def make_runner(hush, hdir, d, own_user=False):
    """`own_user`: no other process runs as this one's user."""
    limit_self()
    uid = 65534
    if own_user and os.getuid() == 0:
        try:
            os.chown(d, 30000 + os.getpid() % 30000, 65534)
            uid = 30000 + os.getpid() % 30000
        except OSError:
            own_user = False
    ok = drop_privileges(uid)
    os.chdir(d)
    rt = Runner(hush, hdir, d)
    rt.own_user = own_user and ok
    return rt


# ---------------------------------------------------------------------------------------------
def _worker(pid, tier, seed, index, count, hush, hdir, d, stop, conn):
    try:
        sys.setrecursionlimit(20000)
        rt = make_runner(hush, hdir, d, getattr(load_check(pid), "OWN_USER", False))
        os.environ["HOME"] = d
        import warnings
        warnings.simplefilter("ignore")
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings, seed as hseed
        hypothesis.settings.register_profile("pbt", database=None)
        hypothesis.settings.load_profile("pbt")
        try:
            # Mutating earlier cases mostly yields equal ones for these generators.
            import hypothesis.internal.conjecture.engine as ce
            ce.ConjectureRunner.generate_mutations_from = lambda self, data: None
        except (ImportError, AttributeError):
            pass
        mod = load_check(pid)
        st = {
            "evals": 0, "cases": 0, "nontrivial": set(), "labels": collections.Counter(),
            "samples": [], "best": None, "first": None, "t_fail": None, "cache": {},
            "infra": None, "excluded": 0,
        }
        want = set(getattr(mod, "SAMPLE_LABELS", ()))

        class Found(Exception):
            pass

        def judge_once(case):
            """None: not judged; otherwise whether the property held."""
            if st["infra"] is not None:
                return None
            if stop.is_set() and st["t_fail"] is None:
                raise KeyboardInterrupt()
            key = case_key(case)
            if st["t_fail"] is not None:
                if key in st["cache"]:
                    return st["cache"][key]
                if time.time() - st["t_fail"] > SHRINK_SECONDS:
                    # Nothing else stops Hypothesis from shrinking on.
                    raise KeyboardInterrupt()
            try:
                v = run_case(mod, case, rt)
            except Infra as e:
                st["infra"] = "infrastructure: %s" % e
                return None
            except Exception:
                st["infra"] = "oracle error on case %s\n%s" % (
                    json.dumps(case)[:3000], traceback.format_exc())
                return None
            st["cases"] += 1
            st["evals"] += v.n
            for l in v.labels:
                st["labels"][l] += 1
            if v.nontrivial:
                st["nontrivial"].add(v.key or key)
                if st["cases"] > 8 and (len(st["samples"]) < 2 or (
                    len(st["samples"]) < 6 and want & set(v.labels) - set(
                        l for s in st["samples"] for l in s["labels"]))):
                    st["samples"].append({"labels": v.labels, "case": case})
            st["cache"][key] = v.ok
            if len(st["cache"]) > 20000:
                st["cache"].clear()
            if not v.ok:
                if st["t_fail"] is None:
                    st["t_fail"] = time.time()
                    st["first"] = (case, v.detail)
                    stop.set()
                if v.hang:
                    # Never shrink hangs: it would take forever.
                    st["t_fail"] = time.time() - 2 * SHRINK_SECONDS
                size = len(json.dumps(case))
                if st["best"] is None or size < st["best"][0]:
                    st["best"] = (size, case, v.detail)
            return v.ok

        def body(case):
            # One place only: Hypothesis tells failures apart by where they are raised.
            if judge_once(case) is False:
                raise Found()

        strategy = mod.strategy(tier)
        test = given(strategy)(body)
        test = settings(
            max_examples=count, database=None, deadline=None, derandomize=False,
            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False, print_blob=False,
        )(test)
        n = int(hashlib.sha256(("%s/%s/%d" % (seed, pid, index)).encode()).hexdigest()[:15], 16)
        test = hseed(n)(test)
        devnull = open(os.devnull, "w")
        so = sys.stdout
        sys.stdout = devnull
        try:
            test()
        except BaseException as e:
            if st["best"] is None and not stop.is_set():
                raise
        finally:
            sys.stdout = so
        conn.send({
            "evals": st["evals"], "cases": st["cases"], "nontrivial": list(st["nontrivial"]),
            "labels": dict(st["labels"]), "samples": st["samples"], "best": st["best"],
            "first": st["first"], "runs": rt.runs, "infra": st["infra"],
        })
    except BaseException:
        conn.send({"error": traceback.format_exc()})
    finally:
        conn.close()


def _single(pid, cases, hush, hdir, d, conn):
    """Evaluates given cases in a fresh process (pinned cases, confirmation, replay)."""
    try:
        sys.setrecursionlimit(20000)
        rt = make_runner(hush, hdir, d, getattr(load_check(pid), "OWN_USER", False))
        mod = load_check(pid)
        out = []
        for case in cases:
            try:
                v = run_case(mod, case, rt)
                out.append({"ok": v.ok, "detail": v.detail, "labels": v.labels, "n": v.n,
                            "nontrivial": v.nontrivial})
            except Infra as e:
                out.append({"error": "infrastructure: %s" % e})
        conn.send({"results": out, "runs": rt.runs})
    except BaseException:
        conn.send({"error": traceback.format_exc()})
    finally:
        conn.close()


def _spawn(target, args):
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(duplex=False)
    p = ctx.Process(target=target, args=args + (b,), daemon=False)
    p.start()
    b.close()
    return p, a


def _collect(p, a):
    try:
        r = a.recv()
    except EOFError:
        r = {"error": "worker ended without an answer"}
    p.join()
    return r


class Session:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.base = make_scratch()
        self.k = 0

    def __enter__(self):
        self.hush, self.hdir = prepare(self.base)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.base, ignore_errors=True)

    def dir(self):
        self.k += 1
        return worker_dir(self.base, "w%d" % self.k)

    def eval_cases(self, cases):
        k = max(1, min(WORKERS, len(cases)))
        ws = [_spawn(_single, (self.pid, cases[i::k], self.hush, self.hdir, self.dir())) for i in range(k)]
        out = [None] * len(cases)
        rs = [_collect(*w) for w in ws]
        for i, r in enumerate(rs):
            if "error" in r:
                raise Infra(r["error"])
            for x in r["results"]:
                if "error" in x:
                    raise Infra(x["error"])
            out[i::k] = r["results"]
        return out

    def search(self, total, stop):
        per = [total // WORKERS + (1 if i < total % WORKERS else 0) for i in range(WORKERS)]
        ws = []
        for i, n in enumerate(per):
            if n:
                ws.append(_spawn(_worker, (self.pid, self.tier, self.seed, i, n, self.hush,
                                           self.hdir, self.dir(), stop)))
        return [_collect(*w) for w in ws]


def smaller(s, case, detail):
    """The smallest size at which a pinned program of unusual size fails."""
    if not (isinstance(case, dict) and "wide" in case):
        return case, detail
    lo, hi = 1, case["n"]
    while lo + 1 < hi:
        mid = (lo + hi) // 2
        c = dict(case, n=mid)
        r = s.eval_cases([c])[0]
        if r["ok"]:
            lo = mid
        else:
            hi, case, detail = mid, c, r["detail"]
    return case, detail


def check(pid, tier, seed):
    t0 = time.time()
    import hypothesis  # noqa: F401  (before the workers give up their privileges)
    import hypothesis.strategies  # noqa: F401
    mod = load_check(pid)
    known = load_known(pid)
    out = {"violation": None}
    with Session(pid, tier, seed) as s:
        pinned = [c for c in getattr(mod, "PINNED", [])]
        probes = [k for k in known if k["status"] == "known"]
        results = s.eval_cases(pinned + [k["case"] for k in probes]) if pinned or probes else []
        evals = 0
        cases = 0
        labels = collections.Counter()
        nontrivial = set()
        samples = []
        for case, r in zip(pinned, results):
            evals += r["n"]
            cases += 1
            labels["pinned regression case"] += 1
            if r["nontrivial"]:
                nontrivial.add(case_key(case))
            if not r["ok"]:
                out["violation"] = smaller(s, case, r["detail"])
                break
        known_lines = []
        for k, r in zip(probes, results[len(pinned):]):
            if not r["ok"]:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            else:
                known_lines.append("note: the known finding no longer shows: %s" % k["what"])
        if out["violation"] is None:
            ctx = mp.get_context("fork")
            stop = ctx.Event()
            rs = s.search(mod.COUNTS[tier], stop)
            for r in rs:
                if "error" in r:
                    raise Infra(r["error"])
            bad = [r for r in rs if r["best"] is not None]
            if not bad:
                for r in rs:
                    if r["infra"]:
                        raise Infra(r["infra"])
            for r in rs:
                evals += r["evals"]
                cases += r["cases"]
                labels.update(r["labels"])
                nontrivial.update(r["nontrivial"])
                samples.extend(r["samples"])
            # A failure counts if it shows again in a fresh process.
            for r in sorted(bad, key=lambda r: r["best"][0]):
                for case, detail in ((r["best"][1], r["best"][2]), r["first"]):
                    again = []
                    for _ in range(4):
                        again = s.eval_cases([case])
                        if not again[0]["ok"]:
                            break
                    if again and not again[0]["ok"]:
                        out["violation"] = (case, again[0]["detail"])
                        break
                if out["violation"]:
                    break
            if bad and out["violation"] is None:
                out["unreproduced"] = [r["first"] for r in bad]
    rng = random.Random(seed)
    samples.sort(key=lambda x: case_key(x["case"]))
    rng.shuffle(samples)
    samples = [clip_sample(mod, x) for x in samples[:8]]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "cases_generated": cases,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples or [clip_sample(mod, {"labels": ["pinned"], "case": c}) for c in pinned[:3]],
            "classification": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": 0,
    }
    if known_lines:
        ev["known_findings"] = known_lines
    if out.get("unreproduced"):
        ev["unreproduced"] = [json.dumps(u)[:2000] for u in out["unreproduced"]]
    rc = 0
    if out["violation"]:
        case, detail = out["violation"]
        path = save_replay(pid, case, detail, tier, seed)
        ev["violations"] = 1
        ev["violation"] = {"replay": path, "detail": detail}
        rc = 1
    write_evidence(pid, ev)
    for l in known_lines:
        print(l)
    if rc:
        print(json.dumps(detail, indent=1)[:6000])
        show = getattr(mod, "show", None)
        if show:
            try:
                print("--- minimal case ---")
                print(show(case)[:6000])
                print("--------------------")
            except Exception:
                pass
        print("VIOLATION property=%s replay=%s" % (pid, path))
    else:
        print("%s held: %d cases, %d evaluations, %d distinct non-trivial, %.1f s" % (
            pid, cases, evals, len(nontrivial), time.time() - t0))
    return rc


COMMON_ASSUMPTIONS = [
    "the debug profile of the current /repo tree is what is judged (overflow checks and debug assertions on)",
    "search, not proof: the property held on every generated case",
]


def clip_sample(mod, x):
    show = getattr(mod, "show", None)
    s = {"labels": x["labels"]}
    text = None
    if show:
        try:
            text = show(x["case"])
        except Exception:
            text = None
    if text is not None:
        s["input"] = text[:1500]
    else:
        j = json.dumps(x["case"])
        s["input"] = x["case"] if len(j) < 1500 else j[:1500]
    return s


def write_evidence(pid, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.json.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(d, "%s.json" % pid))


def save_replay(pid, case, detail, tier, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, case_key(case)[:12]))
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case, "detail": detail, "tier": tier, "seed": seed}, f, indent=1)
        f.write("\n")
    return path


def load_known(pid):
    """known-findings.txt. Lines:
         known: property=<id> <what fails> ## <case as JSON>
         fixed: property=<id> <commit> <what failed>        (suppresses nothing)"""
    path = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                what, case = line[len("known: property=%s " % pid):].split(" ## ", 1)
                r.append({"status": "known", "what": what, "case": json.loads(case)})
    return r


def replay(pid, path):
    data = json.load(open(path))
    with Session(pid, "quick", 1) as s:
        r = s.eval_cases([data["case"]])[0]
    print(json.dumps(r["detail"], indent=1))
    mod = load_check(pid)
    if hasattr(mod, "show"):
        print(mod.show(data["case"]))
    if r["ok"]:
        print("%s: the saved case passes" % pid)
        return 0
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
