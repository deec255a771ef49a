"""Checks of symbols and inputs: C05, C06."""
import itertools, os
import harness, lit, val
from checks_core import model


def bs(s):
    return list(s if isinstance(s, bytes) else s.encode())


# ---------------------------------------------------------------- C05: symbols
GIVEN = ["false", "true", "", "LINE", "add", "div", "max", "min", "mul", "sub", "CHECK", "COM", "RUN"]
KINDS = ["intern", "string", "static", "box", "borrowed", "owned", "serde"]


def sym_case(ops, threads, r, find=()):
    texts = [o[1] for o in ops] + [o[1] for t in threads for o in t]
    n = len(GIVEN) + len(texts)
    pairs = [[i, j] for i, j in itertools.product(range(1, n + 1), repeat=2)]
    pairs = r.sample(pairs, min(len(pairs), 60))
    find = [r.choice(GIVEN + texts) for _ in range(8)] + list(find)
    return {"real": {"ops": ops, "threads": threads, "pairs": pairs, "find": find},
            "tla": {"given": [bs(g) for g in GIVEN], "asked": [bs(t) for t in texts], "pairs": pairs, "find": [bs(f) for f in find]}}


def sym_describe(c, o, a):
    return "symbols do not stand for their texts one to one\n  asked: %s\n  by threads: %s\n  real: %s\n  wrong: %s" % (
        c["real"]["ops"], c["real"]["threads"], {k: o.get(k) for k in ("nums", "pairs", "found", "verdict", "msg")}, a)


def sym_validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "SymbolsVal", "sym", cases, sym_describe, **extra)


def sym_text(r, new):
    k = r.random()
    if k < 0.2:
        return r.choice(GIVEN)
    if k < 0.6:
        return r.choice(["a", "b", "ab", "A", "a ", "CHECK ", "CHEC", "check", "\u00e9", "\u00e9\u0301", "\0", "line", "0", "-", "\n", "\U0001f600"])
    if k < 0.8:
        return "".join(r.choice("ab\u00e9") for _ in range(r.choice([1, 2, 3, 23, 24, 25, 300])))
    return next(new)


def counter(prefix):
    n = itertools.count()
    while True:
        yield "%s%d" % (prefix, next(n))


def sym_random(ctx):
    r = ctx.rnd("symbols")
    new = counter("n")
    cs = []
    for _ in range(20000 if ctx.thorough else 2000):
        ops = [[r.choice(KINDS), sym_text(r, new)] for _ in range(r.randint(1, 12))]
        ops += [[r.choice(KINDS), r.choice(ops)[1]] for _ in range(r.randint(0, 4))]
        r.shuffle(ops)
        cs.append(sym_case(ops, [], r, [sym_text(r, new)]))
    sym_validate(ctx, "random requests, one after the other", cs)


def sym_every(ctx):
    r = ctx.rnd("pairs")
    new = counter("p")
    cs = []
    for k in (2, 3) if ctx.thorough else (2,):
        for kinds in itertools.product(KINDS, repeat=k):
            for text in GIVEN + [None]:
                t = text if text is not None else next(new)
                cs.append(sym_case([[x, t] for x in kinds] + [[kinds[0], t + "'"]], [], r))
    sym_validate(ctx, "every way to ask, twice, for every name", cs, exhaustive=True)


def sym_threads(ctx):
    r = ctx.rnd("threads")
    new = counter("t")
    cs = []
    for _ in range(12000 if ctx.thorough else 1500):
        fresh = [next(new) for _ in range(r.choice([1, 2, 8, 30]))]
        threads = []
        for _ in range(r.choice([2, 4, 8])):
            ts = fresh[:]
            if r.random() < 0.5:
                r.shuffle(ts)
            threads.append([[r.choice(KINDS), t] for t in ts])
        cs.append(sym_case([], threads, r))
    sym_validate(ctx, "new names asked for by several threads at the same time", cs, chunk=2000)


# ---------------------------------------------------------------- C06: inputs
def tree_case(dirs, files, ops):
    """files: (path, bytes); paths are tuples of names"""
    p = lambda q: [bs(n) for n in q]
    def op(o):
        o = list(o)
        o[1] = p(o[1])
        if o[0] in ("glob",):
            o[2] = bs(o[2])
        elif o[0] == "types":
            o[2] = [bs(t) for t in o[2]]
        elif o[0] == "search":
            o[3] = bs(o[3])
        elif o[0] == "fits":
            o[2], o[3] = [bs(t) for t in o[2]], bs(o[3])
        return o
    t = {"dirs": [p(d) for d in dirs], "files": [[p(f), bs(b)] for f, b in files], "ops": [op(o) for o in ops]}
    return {"real": t, "tla": t, "about": (dirs, files, ops)}


def ans(a):
    if a in ("error", "refused"):
        return {"k": a, "v": []}
    if isinstance(a, dict):
        return {"k": "text", "v": a["text"], "named": a.get("named", True)}
    if a and all(isinstance(x, bool) for x in a[:3]):
        return {"k": "said", "v": a[:3], "n": a[3] if len(a) > 3 else 0}
    return {"k": "list", "v": [x if isinstance(x, list) else [[0]] for x in a]}


def tree_describe(c, o, a):
    d, f, ops = c["about"]
    return "an input stands for something else than specified\n  directories: %s\n  files: %s\n  asked: %s\n  answers: %s\n  wrong: %s" % (
        d, f, ops, str(o.get("ans", o))[:300], str(a)[:300])


def tree_validate(ctx, name, cases, **extra):
    with lit.World() as w:
        val.validate(ctx, name, "InputsVal", "inp", cases, tree_describe, hargs={"env": {"VH_SCRATCH": w.path("work")}},
                     obsf=lambda o, c: {"ans": [ans(a) for a in o["ans"]]}, size=lambda c: len(str(c["about"])), **extra)


NAMES = ["a", "b.c", ".c", "x.c.d", "c", "b.", "[a]", "a*", "B.C", "\u00e9.c", "a b.c", "..c", "d.c"]
GLOBS = ["*", "*.c", "a", "?", "b.?", "**/*.c", "**", "d/*.c", "d/**/a", "[ab]*", "[!a]*", "*/*", "*/a", "", "d.c/*", "[[]a]", "a[*]", "*c", "**/a", "a*", "d"]
TYPES = [["c"], ["d"], ["c", "d"], [], [""], ["C"], ["c.d"], [".c"], ["\u00e9"]]
TEXTS = [b"", b"a", b"a\n", b"a\r\nb\r\n", b"\n", b"\r\n", b"a\rb\r", b"\r", b"a\n\nb", b"\n\n", b"a\xff", b"\xc3\xa9\n", b"a\r\r\nb", b"\r\n\r\n"]


def tree_random(ctx):
    r = ctx.rnd("trees")
    cs = []
    for _ in range(20000 if ctx.thorough else 2500):
        ds = [()]
        for _ in range(r.randint(0, 4)):
            ds.append(r.choice(ds) + (r.choice(["d", "d", "e", "d.c", "[d]", ".h"]),))
        fs = {}
        for _ in range(r.randint(0, 7)):
            f = r.choice(ds) + (r.choice(NAMES),)
            if f not in ds and not any(g[:len(f)] == f for g in ds):
                fs[f] = r.choice(TEXTS)
        fs = {f: b for f, b in fs.items() if not any(f[:k] in fs for k in range(1, len(f)))}
        paths = ds + list(fs) + [("nope",), ("d", "nope")]
        ops = []
        for _ in range(6):
            k = r.choice(["glob"] * 3 + ["types"] * 2 + ["search"] * 2 + ["read", "load", "is"])
            at = r.choice(list(fs) or ds) if k in ("read", "load") and r.random() < 0.8 else r.choice(ds) if k == "glob" or r.random() < 0.7 else r.choice(paths)
            if k == "glob":
                if r.random() < 0.1:
                    at = r.choice(list(fs) + [("nope",)])
                ops.append([k, at, r.choice(GLOBS)])
            elif k == "types":
                ops.append([k, at, r.choice(TYPES)])
            elif k == "search":
                ops.append([k, at, r.random() < 0.5, r.choice(["", "c", ".c", "a", "x.c.d"])])
            elif k == "is":
                ops.append([k, r.choice(paths)])
            else:
                ops.append([k, at, r.random() < 0.5])
        ops.append(["fits", (), [r.choice(GLOBS) for _ in range(r.randint(0, 3))],
                    "/".join(r.choice(["a", "d", "b.c", ".c", "x.c", "[a]"]) for _ in range(r.randint(1, 3)))])
        cs.append(tree_case(ds[1:], list(fs.items()), ops))
    tree_validate(ctx, "random trees", cs)


def texts_every(ctx):
    cs = []
    for n in range(6 if ctx.thorough else 5):
        for t in itertools.product([b"a", b"\r", b"\n", b"\xc3\xa9"], repeat=n):
            f = ("f",)
            cs.append(tree_case([], [(f, b"".join(t))], [["read", f, True], ["read", f, False], ["load", f, True], ["load", f, False]]))
    tree_validate(ctx, "every short text, read both ways", cs, exhaustive=True)


def globs_every(ctx):
    """Every pattern of a table about every file of one tree"""
    fs = [((d + (n,)), b"") for d in [(), ("d",), ("d", "d"), ("[d]",), ("d.c",)] for n in NAMES if d + (n,) != ("d.c",)]
    cs = []
    for at in [(), ("d",), ("d", "d"), ("[d]",), ("d.c",)]:
        for g in GLOBS + ["%s/%s" % (a, b) for a in GLOBS[:9] for b in GLOBS[:9] if a and b and "**" not in b]:
            if "**" in g.replace("**/", "").rstrip("*") or g.endswith("/**") or ("**" in g and not g.startswith("**")):
                continue
            cs.append(tree_case([], fs, [["glob", at, g]]))
        for ts in TYPES:
            cs.append(tree_case([], fs, [["types", at, ts]]))
        for deep in (True, False):
            for e in ["", "c", ".c", "a"]:
                cs.append(tree_case([], fs, [["search", at, deep, e]]))
    tree_validate(ctx, "every question of a table about one tree", cs, exhaustive=True)


CHECKS = {"C05": [model("two that ask for symbols at the same time", "SymbolsMC"), sym_every, sym_random, sym_threads],
          "C06": [globs_every, texts_every, tree_random]}
NEED_BINARY = set()


def about(i):
    return {
        "C05": ("a TLA+ specification of the table of symbols (Symbols.tla), entered in two steps by several at once and checked with TLC; answers of the "
                "real table, also to several threads at once, are validated against it with TLC",
                "threads run freely: the order in which they enter the table is not controlled"),
        "C06": ("a TLA+ specification of which files and texts an input stands for (Inputs.tla, with the patterns of Discovery.tla); answers of the "
                "real code about trees of files are validated against it with TLC", "no symbolic links, no files that cannot be read"),
    }[i]
