"""Generated histories of exports, directory changes, prefixed assignments and commands, against a model of the environment and working directory."""
import os

from hypothesis import strategies as st

from core.engine import Verdict, fail
from lang import procs as P
from lang.syntax import str_lit

COUNTS = {"quick": 5000, "thorough": 140000}
RULE = ("a case is a script of up to 14 exports, directory changes and observations; non-trivial: at least one change took effect and "
        "at least two kinds of observation follow it; each observation is one evaluation")
SAMPLE_LABELS = ("inherited variable", "export", "cd", "failed change", "prefix assignment", "prefix on builtin", "redirection", "glob", "async", "search path", "exec")

NAMES = ["A", "B", "C", "LONG_NAME_1", "a b", "\xc3\xa9", "1", "x.y", "-", "PWD", "PWD", "OLDPWD", "HUSH"]
PLAIN = ["A", "B", "C", "LONG_NAME_1", "HUSH"]
MANY = ["M%d" % i for i in range(40)]
VALUES = ["", "v", "x", "a b", " ", "=", "k=v", "\n", "tab\there", "\xff\xfe", "\xc3\xa9t\xc3\xa9", "*", "$A", "~/x", "'", '"', "\\", "long " * 60, "nil", "0", "@BASE@/ln", "@BASE@", "@BASE@/./d1", "@BASE@/d1/", "@BASE@//d1", "a\n", "  ", "/", ".", "a:b"]
# Directories, as components below the base; ln is a symbolic link to d1.
DIRS = [(), ("d1",), ("d1", "d2"), ("d e",), ("d1", "d2", "d3"), ("dx",)]
PATHS = ["d1", "d1/d2", "d2", "d e", "..", ".", "../..", "./d1", "d1/..", "d1/d2/../..", "ln", "ln/d2", "../d1", "d3", "d1/d2/d3", "d1/", "dx", "../dx"]
BAD = ["no", "d1/no", "file", "d1/file", "", "no/..", "file/..", "*"]


def value():
    return st.one_of(st.sampled_from(VALUES), st.binary(max_size=8).map(lambda b: b.replace(b"\0", b"").decode("latin-1")))


@st.composite
def prefix(draw):
    ps = []
    if draw(st.integers(0, 39)) == 0:
        # Many of them.
        ns = MANY[:draw(st.integers(4, len(MANY)))]
        return [["lit", draw(st.sampled_from(PLAIN)) if i % 7 == 6 else m, str(i)] for i, m in enumerate(ns)] + [
            ["lit", draw(st.sampled_from(PLAIN)), "last"]]
    for _ in range(draw(st.integers(1, 3))):
        form = draw(st.sampled_from(["lit", "lit", "var", "dq", "keyvar"]))
        k = draw(st.sampled_from(NAMES if form == "keyvar" else PLAIN))
        ps.append([form, k, draw(value())])
    return ps


@st.composite
def op(draw):
    k = draw(st.sampled_from(["export", "export", "export", "cd", "cd", "bcd", "bcd", "env", "env", "cwd", "see", "see", "see",
                              "where", "where", "write", "read", "glob", "sglob", "home", "badexport", "badcd", "badcd", "path", "rel"]))
    if k == "export":
        return [k, draw(st.sampled_from(NAMES)), draw(value())]
    if k in ("cd", "bcd"):
        return [k, draw(st.one_of(st.sampled_from(PATHS), st.sampled_from(["abs0", "abs1", "abs2"]))), draw(prefix()) if k == "bcd" and draw(st.integers(0, 4)) == 0 else []]
    if k == "badcd":
        return [k, draw(st.sampled_from(BAD)), draw(st.booleans())]
    if k == "badexport":
        return [k] + draw(st.sampled_from([["", "v"], ["A=", "v"], ["=", "v"], ["A=B", "v"], ["A\0", "v"], ["A", "\0"], ["A", "v\0w"], ["B", "x\0"], ["\0", "x"]]))
    if k == "env":
        return [k, draw(st.sampled_from(NAMES + ["NONE", "A\0", ""]))]
    if k in ("see", "where"):
        return [k, draw(st.sampled_from(["cmd", "cap", "async", "pipe", "spawn0", "block", "fn"])), draw(prefix()) if draw(st.booleans()) else [],
                draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4))]
    if k == "write":
        return [k, draw(st.sampled_from([">", ">>"])), draw(st.sampled_from(["o1", "o2", "./o1", "../o3"]))]
    if k == "home":
        return [k, draw(st.sampled_from([None, 0, 1, 2])), draw(st.sampled_from(["", "", "", "/", "//", "/.", "/./", "//.//", "/..", " ", "*", "\n"]))]
    if k == "path":
        return [k, draw(st.sampled_from(["alt", "alt2", "none", "back", "back"]))]
    return [k]


@st.composite
def cases(draw):
    return {"ops": draw(st.lists(op(), min_size=3, max_size=14)),
            "env": draw(st.lists(st.tuples(st.sampled_from([n for n in NAMES if n != "\xc3\xa9"]), value()).map(list), max_size=4)),
            "start": draw(st.sampled_from([0, 0, 0, 1, 3])),
            "exec": draw(st.sampled_from([None, None, None, "exec", "exec0"])), "pre": draw(prefix())}


def strategy(tier):
    return cases()


def norm(comps):
    out = []
    for c in comps:
        if c == "..":
            if not out:
                return None
            out.pop()
        elif c == "ln":
            out = ["d1"]
        elif c not in (".", ""):
            out.append(c)
    return tuple(out)


def go(cwd, path):
    """The directory `path` leads to from cwd, or None (outside of the tree, or not there)."""
    cur = cwd
    for c in path.split("/"):
        if c in (".", ""):
            continue
        if c == "..":
            if not cur:
                return None
            cur = cur[:-1]
            continue
        if c == "ln" and cur == ():
            cur = ("d1",)
            continue
        cur = cur + (c,)
        if cur not in DIRS:
            return None
    return cur


def hexs(b):
    return (b.hex() or "-").encode() + b"\n"


def based(x, base):
    """The case with the base directory in its values."""
    if isinstance(x, str):
        return x.replace("@BASE@", base)
    return [based(y, base) for y in x] if isinstance(x, list) else x


def build(case, base, hdir):
    case = {k: based(v, base) for k, v in case.items()}
    env = {}
    for k, v in case["env"]:
        env[k] = v
    cwd = DIRS[case["start"]]
    path = "back"
    home = None
    text = ""
    exp = bytearray()
    labels = set()
    files = {}
    for d in DIRS:
        files[d + ("in_" + (d[-1] if d else "base").replace(" ", "_"),)] = ("I am in " + "/".join(d) + "\n").encode()
    changed, kinds, n = False, set(), 0
    lat = lambda s: s.encode("latin-1")

    def here(d):
        return (base + "".join("/" + c for c in d)).encode()

    def seen(name, over):
        v = over.get(name, env.get(name))
        return b"!\n" if v is None else hexs(lat(v))

    def render(pre, k):
        """Source of the prefixed assignments, and declarations they need."""
        decl, src, over = "", "", {}
        for j, (form, key, val) in enumerate(pre):
            if form == "lit" and not (val and all(c.isalnum() for c in val)):
                form = "dq"
            if form == "lit":
                src += "%s=%s " % (key, val)
            elif form == "dq":
                src += "%s=%s " % (key, P.dq(val))
            elif form == "var":
                decl += "let p%d_%d = %s\n" % (k, j, str_lit(val))
                src += "%s=$p%d_%d " % (key, k, j)
            else:
                decl += "let q%d_%d = %s\nlet p%d_%d = %s\n" % (k, j, str_lit(key), k, j, str_lit(val))
                src += "$q%d_%d=$p%d_%d " % (k, j, k, j)
            over[key] = val
        return decl, src, over

    for k, o in enumerate(case["ops"]):
        kind = o[0]
        if kind == "export":
            text += "std.println(std.export(%s, %s))\n" % (str_lit(o[1]), str_lit(o[2]))
            exp += b"nil\n"
            env[o[1]] = o[2]
            changed = True
            labels.add("export")
        elif kind == "badexport":
            text += "std.println(std.type(std.export(%s, %s)))\n" % (str_lit(o[1]), str_lit(o[2]))
            exp += b"error\n"
            labels.add("failed change")
        elif kind in ("cd", "bcd"):
            p = o[1]
            if p.startswith("abs"):
                to = DIRS[int(p[3:])]
                p = here(to).decode()
            else:
                to = go(cwd, p)
                if to is None:
                    continue
            if kind == "cd":
                text += "std.println(std.cd(%s))\n" % str_lit(p)
            else:
                decl, src, _ = render(o[2], k)
                if o[2]:
                    labels.add("prefix on builtin")
                text += decl + "let c%d = { %scd %s }\nstd.println(c%d)\n" % (k, src, P.dq(p), k)
            exp += b"nil\n"
            cwd = to
            changed = True
            labels.add("cd")
        elif kind == "badcd":
            if o[1] in ("d1/no", "d1/file") and cwd:
                continue
            if o[2]:
                text += "let e%d = std.cd(%s)\n" % (k, str_lit(o[1]))
            else:
                text += "let e%d = { cd %s }\n" % (k, P.dq(o[1]))
            text += "std.println(e%d.description)\n" % k
            isfile = o[1].split("/")[0] == "file" or o[1] == "d1/file"
            exp += b"Not a directory (os error 20)\n" if isfile else b"No such file or directory (os error 2)\n"
            labels.add("failed change")
        elif kind == "env":
            text += "let v%d = std.env(%s)\nstd.println(std.type(v%d), v%d)\n" % (k, str_lit(o[1]), k, k)
            v = env.get(o[1])
            exp += b"nil\tnil\n" if v is None else b"string\t" + lat(v) + b"\n"
            kinds.add("env")
            n += 1
        elif kind == "cwd":
            text += "std.println(std.cwd())\n"
            exp += here(cwd) + b"\n"
            kinds.add("cwd")
            n += 1
        elif kind in ("see", "where"):
            how, pre, names = o[1], o[2], o[3]
            if path == "none":
                continue
            decl, src, over = render(pre, k)
            text += decl
            if pre:
                labels.add("prefix assignment")
            if kind == "see":
                if len(pre) > 3:
                    labels.add("many assignments")
                    names = names + [x[1] for x in pre[3:]]
                cmd = "env " + " ".join(P.dq(x) for x in names)
                got = b"".join(seen(x, over) for x in names)
                plain = b"".join(seen(x, {}) for x in names)
            else:
                cmd = "cwd"
                got = plain = hexs(here(cwd))
            n += 1
            kinds.add(kind + how)
            if how == "cmd":
                text += "{ %shx %s }\n" % (src, cmd)
                exp += got
            elif how == "fn":
                text += "let f%d = function () { %shx %s } end\nf%d()\n" % (k, src, cmd, k)
                exp += got
            elif how == "cap":
                text += "let o%d = ${ %shx %s }\nstd.print(o%d.stdout)\n" % (k, src, cmd, k)
                exp += got
            elif how == "async":
                text += "let h%d = &{ %shx %s }\nstd.println(h%d.join())\n" % (k, src, cmd, k)
                exp += got + b"nil\n"
                labels.add("async")
            elif how == "pipe":
                # The assignment is one stage's only.
                text += "{ %shx %s | hx d %s | hx cat }\n{ hx %s | %shx d %s }\n" % (src, cmd, cmd, cmd, src, cmd)
                exp += plain + got
            elif how == "block":
                text += "{ hx %s ; %shx %s ; hx %s }\n" % (cmd, src, cmd, cmd)
                exp += plain + got + plain
            else:
                text += "{ %sspawn0 hx zero %s ; hx %s }\n" % (src, cmd, cmd)
                exp += got + plain
                if pre:
                    labels.add("prefix on builtin")
        elif kind == "write":
            if path == "none":
                continue
            d = cwd
            f = o[2]
            if f.startswith("../"):
                if not cwd:
                    continue
                d = cwd[:-1]
            key = d + (f.split("/")[-1],)
            text += "{ hx out '57%02x' %s %s }\n" % (97 + k, o[1], f)
            files[key] = (files.get(key, b"") if o[1] == ">>" else b"") + b"W" + bytes([97 + k])
            labels.add("redirection")
            kinds.add("write")
            n += 1
        elif kind == "read":
            if path == "none":
                continue
            f = "in_" + (cwd[-1] if cwd else "base").replace(" ", "_")
            text += "{ hx cat < %s }\n" % f
            exp += files[cwd + (f,)]
            kinds.add("read")
            labels.add("redirection")
            n += 1
        elif kind in ("glob", "sglob"):
            fs = sorted(f[-1] for f in files if f[:-1] == cwd and f[-1].startswith("in_"))
            if kind == "glob":
                if path == "none":
                    continue
                text += "{ hx args in_* }\n"
                exp += b"".join(hexs(b"./" + f.encode()) for f in fs)
            else:
                text += "for x in std.iter(std.glob(\"in_*\")) do std.println(x) end\n"
                exp += b"".join(f.encode() + b"\n" for f in fs)
            labels.add("glob")
            kinds.add(kind)
            n += 1
        elif kind == "home":
            if o[1] is not None:
                home = here(DIRS[o[1]]) + (o[2] if len(o) > 2 else "").encode()
                text += "std.export(\"HOME\", %s)\n" % str_lit(home.decode())
                env["HOME"] = home.decode()
                changed = True
            elif home is not None and path != "none":
                text += "{ hx args ~/x }\n"
                exp += hexs(home + (b"" if home.endswith(b"/") else b"/") + b"x")
                n += 1
                kinds.add("home")
        elif kind == "path":
            to = o[1]
            v = {"alt": base + "/alt:" + hdir, "alt2": hdir + ":" + base + "/alt", "none": base + "/nothing", "back": hdir}[to]
            text += "std.export(\"PATH\", %s)\n" % str_lit(v)
            path = to
            env["PATH"] = v
            labels.add("search path")
            # hx is shadowed by nothing; hy is only in alt.
            text += "let y%d = { hy argv0 }\nstd.println(if y%d == nil then \"yes\" else y%d.context.status end)\n" % (k, k, k)
            exp += hexs(b"hy") + b"yes\n" if to.startswith("alt") else b"127\n"
            if to == "none":
                text += "let z%d = { hx argv0 }\nstd.println(z%d.context.status)\n" % (k, k)
                exp += b"127\n"
            n += 1
            kinds.add("path")
        elif kind == "rel":
            if cwd not in ((), ("d1",)):
                continue
            # A program found relative to the working directory.
            text += "{ ./%s argv0 }\n" % ("tool" if cwd == () else "tool1")
            exp += hexs(b"./tool" if cwd == () else b"./tool1")
            n += 1
            kinds.add("rel")
    if case["exec"] and path != "none":
        decl, src, over = render(case["pre"], 99)
        text += decl + "{ %s%s hx %senv A B C ; hx out 6e }\n" % (src, case["exec"], "zero " if case["exec"] == "exec0" else "")
        exp += b"".join(seen(x, over) for x in "ABC")
        labels.add("exec")
    if case["env"]:
        labels.add("inherited variable")
    return text, bytes(exp), labels, changed and len(kinds) >= 2, max(n, 1), files


def show(case):
    return build(case, "/BASE", "/HX")[0].encode("latin-1").decode("utf-8", "backslashreplace")


def evaluate(case, rt):
    d = os.path.realpath(rt.fresh())
    try:
        text, exp, labels, some, n, files = build(case, d, rt.helper_dir)
        initial = build(dict(case, ops=[]), d, rt.helper_dir)[5]
        for x in DIRS:
            p = os.path.join(d, *x)
            if x:
                os.mkdir(p)
        for f, c in initial.items():
            with open(os.path.join(d, *f), "wb") as fh:
                fh.write(c)
        for x in DIRS:
            with open(os.path.join(d, *x, "file"), "wb") as fh:
                fh.write(b"f\n")
        os.symlink("d1", os.path.join(d, "ln"))
        os.mkdir(os.path.join(d, "alt"))
        hx = os.path.join(rt.helper_dir, "hx")
        for l in ("alt/hy", "tool", "d1/tool1"):
            os.symlink(hx, os.path.join(d, l))
        env = {os.fsdecode(k.encode("latin-1")): os.fsdecode(based(v, d).encode("latin-1")) for k, v in case["env"]}
        with open(os.path.join(d, "t.hsh"), "wb") as fh:
            fh.write(text.encode("latin-1"))
        o = rt.exec([os.path.join(d, "t.hsh")], os.path.join(d, *DIRS[case["start"]]), env=env)
        why = P.compare(text, o, exp, P.World())
        if not why:
            for x in DIRS:
                have = set(f for f in os.listdir(os.path.join(d, *x)) if f[0] == "o" or f.startswith("in_"))
                want = set(f[-1] for f in files if f[:-1] == x)
                if have != want:
                    why = "directory %r holds %r instead of %r" % (x, sorted(have), sorted(want))
                    break
            for f, c in files.items():
                if why:
                    break
                with open(os.path.join(d, *f), "rb") as fh:
                    got = fh.read()
                if got != c:
                    why = "file %r holds %r instead of %r" % (f, got, c)
        labels = sorted(labels)
        if why:
            return fail({"why": why, "script": text, "expected": exp[-1500:].decode("latin-1"), "actual": o.brief()},
                        labels=labels, nontrivial=some, hang=o.hang, n=n)
        return Verdict(labels=labels, nontrivial=some, n=n)
    finally:
        rt.drop(d)


PINNED = [
    {"ops": [["see", "spawn0", [["lit", "A", "v"]], ["A"]], ["bcd", "d1", [["lit", "A", "v"]]], ["see", "cmd", [], ["A"]]],
     "env": [["A", "\xff"]], "start": 0, "exec": "exec", "pre": [["lit", "B", "w"]]},
]
