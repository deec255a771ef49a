"""Checks of the properties about discovery and settings: L06, L09."""
import itertools, json, os, re
from concurrent.futures import ThreadPoolExecutor
import lit, val
import gen_disc
from gen_disc import Tree, bs, cfg, disc_case, random_disc, random_tree

SUITE_LINE = re.compile(r"^  \* (.*) - (\d+) tests$")
TEST_LINE = re.compile(r"^  (.*) \(format=(\w+)\)$")


def disc_run(part):
    with lit.World() as w:
        ats = {}
        for c in part:
            if id(c["tree"]) not in ats:
                ats[id(c["tree"])] = at = "t%d" % len(ats)
                c["tree"].lay(w, at)

        def one(c):
            r, root = c["real"], w.path(ats[id(c["tree"])])
            args = {"tests": ["show-tests"], "suites": ["show-suites"], "run": ["run", "--no-execute"]}[r["via"]]
            for o, v in (("--filter", r["filter"]), ("--filter-out", r["out"])):
                if v is not None:
                    args += [o, v]
            rc, out, err = w.run(args + [i.replace("@", root) for i in r["inputs"]], cwd=os.path.join(root, r["cwd"]), timeout=60)
            lines, exc = [], []
            ls = out.split("\n")
            if r["via"] == "tests":
                lines = [[bs(m.group(1)), m.group(2)] for m in map(TEST_LINE.match, ls) if m]
            elif r["via"] == "suites":
                lines = [[bs(m.group(1)), int(m.group(2))] for m in map(SUITE_LINE.match, ls) if m and m.group(2) != "0"]
            else:
                for n, ss in lit.statuses(out).items():
                    lines += [[s, bs(n)] for s in ss]
                if any("Excluded Tests" in l for l in ls):
                    i = next(k for k, l in enumerate(ls) if "Excluded Tests" in l)
                    for l in ls[i + 1:]:
                        if not l.startswith("  "):
                            break
                        exc.append(bs(l[2:]))
            return {"verdict": "hang" if rc is None else "ok", "code": rc, "lines": lines, "excluded": exc, "msg": (out + err)[-600:]}
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, part))


def disc_describe(c, o, a):
    r = c["real"]
    s = lambda x: "".join(map(chr, x)) if x and isinstance(x, list) and all(isinstance(i, int) for i in x) else x
    return ("the tests found are not those specified\n%s\n  in %s: %s of %s, filter %s, filter out %s\n  real: exit %s, %s, excluded %s\n  specified: %s\n%s"
            % (r["tree"], r["cwd"], r["via"], r["inputs"], r["filter"], r["out"], o.get("code"),
               [[s(x) for x in l] for l in o.get("lines", [])], [s(x) for x in o.get("excluded", [])],
               re.sub(r"\[\d+(,\d+)*\]", lambda m: '"' + "".join(chr(int(n)) for n in m.group(0)[1:-1].split(",")) + '"', str(a)[:900]), o.get("msg", "")))


def disc_validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "DiscoveryVal", "", cases, disc_describe, run=disc_run, chunk=8000,
                 obsf=lambda o, c: {k: o[k] for k in ("code", "lines", "excluded")}, **extra)


W = ("w",)


def disc_every(ctx):
    """The universe of DiscoveryMC"""
    dirs = [W, W + ("a",), W + ("a", "b"), W + ("c",)]
    srcs = [[(), ("a",), ("c",), ("a", "b")], [(), ("b",)], [()], [()]]
    paths = [".", "a", "a/b", "c", "t", "a/t", "a/b/t", "c/t"]
    trees, cs = [], []
    for ch in itertools.product(*[[None] + s for s in srcs]):
        trees.append(Tree(dirs + [("o",)], [d + ("t",) for d in dirs],
                          [(d, s, "s%d" % i, cfg(["*t"])) for i, (d, s) in enumerate(zip(dirs, ch)) if s is not None]))
    for t in trees:
        for n in range(1, 4 if ctx.thorough else 3):
            for ins in itertools.product(paths, repeat=n):
                cs.append(disc_case(t, W, [(i, tuple(i.split("/"))) for i in ins]))
    disc_validate(ctx, "every command line about every world of a bounded universe", cs, exhaustive=True, worlds=len(trees), paths=paths)


def disc_random(ctx):
    r = ctx.rnd("disc")
    cs = []
    for _ in range(6000 if ctx.thorough else 500):
        t = random_tree(r)
        cs += [random_disc(r, t) for _ in range(8)]
    disc_validate(ctx, "random trees and command lines", cs)


def disc_model(ctx):
    val.model(ctx, "discovery input by input in every small world", "DiscoveryMC", cfg="DiscoveryMCT.cfg" if ctx.thorough else None)


# ---------------------------------------------------------------- L09: settings
def settings_run(part):
    got = [None] * len(part)
    for target in sorted({c["target"] or "" for c in part}):
        ids = [i for i, c in enumerate(part) if (c["target"] or "") == target]
        with lit.World() as w:
            os.mkdir(w.path("tmp"))
            for i in ids:
                c = part[i]

                def text(f, c=c, i=i):
                    t = "c%df%d" % (i, c["tree"].files.index(f))
                    need = c["needs"].get(f)
                    return ("#!/bin/sh\n" + ("# REQUIRES: %s\n" % need if need else "") +
                            "# RUN: r %s sh v0 %s\nr %s exe v0\n" % (t, " ".join("'%s'" % k for k in gen_disc.KEYS), t))
                works = c["works"]
                c["tree"].lay(w, c["at"], text, lambda n, works=works: {"": None, "abs": w.path("work"), "rel": "../k"}[works.get(n, "")], 0o755)
                for d, _, _, _ in c["tree"].suites:
                    os.makedirs(w.path(c["at"], *(d[:-1] + ("k",))), exist_ok=True)
            rc, out, err = w.run(["run", "-j", "8", "--path", "bin"] + (["--target", target] if target else []) + [part[i]["at"] + "/w" for i in ids],
                                 env={"TMPDIR": w.path("tmp"), "RECORDER_LOG": w.path("work/log"), "VL_A": "outer"})
            st, rec = lit.statuses(out), w.records()
            by_suite = {}
            for n, ss in st.items():
                by_suite.setdefault(n.split("-")[0], []).append((n, ss))
            for i in ids:
                c = part[i]
                tests = []
                for n, ss in by_suite.get("G%s" % c["at"][1:], []):
                    suite, rel = n.split("::")
                    s = next((s for s in c["tree"].suites if s[2] == suite), None)
                    f = s[0] + s[1] + tuple(rel.split("/")) if s else None
                    recs = rec.get("c%df%d" % (i, c["tree"].files.index(f)), []) if f in c["tree"].files else [["?"]]
                    o = {"name": bs(n), "status": "/".join(ss), "words": [], "env": []}
                    if len(recs) > 1:
                        o["status"] = "RUN %d TIMES" % len(recs)
                    elif recs and len(recs[0]) < 4:
                        o["words"] = [bs(x) for x in recs[0]]
                    elif recs:
                        ws = recs[0][1:]
                        k = next((j for j, x in enumerate(ws) if x.startswith("/")), len(ws) - 1)
                        d = ws[k]
                        d = "TEMP" if d.startswith(w.path("tmp") + "/") else os.path.relpath(d, w.dir)
                        # the directory of the suite's toml with ../k behind it
                        if s and s[3] is not None and works_of(c, suite) == "rel" and d == "/".join((c["at"],) + s[0][:-1] + ("k",)):
                            d = c["at"] + "/" + "/".join(s[0]) + "/../k"
                        o["words"] = [bs(x) for x in ws[:k] + [d]]
                        o["env"] = [bs(x) for x in ws[k + 1:]]
                    tests.append(o)
                got[i] = {"verdict": "ok", "tests": tests, "msg": "exit %s\n%s" % (rc, err[-500:])}
    return got


def works_of(c, suite):
    return c["works"].get(suite, "")


def settings_describe(c, o, a):
    txt = lambda x: "".join(map(chr, x))
    real = "\n".join("    %s: %s %s %s" % (txt(t["name"]), t["status"], [txt(x) for x in t["words"]], [txt(x) for x in t["env"]])
                     for t in sorted(o["tests"], key=lambda t: t["name"]))
    spec = ""
    for t in a[:1]:
        spec = "\n".join("    %s: %s %s %s" % (txt(e["name"]), e["is"]["status"], [txt(x) for x in e["is"]["words"]], sorted(txt(x) for x in e["is"]["env"]))
                         for e in sorted(json.loads(t), key=lambda e: e["name"]))
    return ("tests do not have the settings specified\n%s\n  needs %s, directories %s, target %s\n  real:\n%s\n  specified:\n%s\n%s"
            % (c["real"]["tree"], c["real"]["needs"], c["real"]["works"], c["real"]["target"], real, spec, o["msg"]))


def settings_validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "SettingsVal", "", cases, settings_describe, run=settings_run, chunk=1500,
                 obsf=lambda o, c: {"tests": o["tests"]}, **extra)


FMT = [None, {"k": "sh", "extra": [], "unsup": []}, {"k": "sh", "extra": [("%{a}", "9")], "unsup": []}, {"k": "exe", "extra": [], "unsup": []},
       {"k": "exe", "extra": [], "unsup": ["f1"]}]
LEVELS = [
    ("env", [[], [("VL_A", "1")]], [None, [("VL_A", "2")], [("VL_B", "3")], [("VL_A", ""), ("VL_B", "4")]]),
    ("subs", [[], [("%{a}", "1")], [("%{a}", "1"), ("%{b}", "2")]], [None, [("%{a}", "3")], [("%{b}", "4"), ("%{c}", "5")]]),
    ("feats", [[], ["f1"]], [None, ["f2"], ["f1", "f3"]]),
    ("fmt", FMT, [None] + FMT[1:]),
    ("pats", [["*.t"], ["x*", "*/x*"]], [None, ["*y.t"], ["a/b/?.t"]]),
    ("excl", [[], ["x.t"]], [None, ["*y.t"], ["*/x.t"], ["a/?.t"]]),
]


def settings_every(ctx):
    dirs = [("w",), ("w", "a"), ("w", "a", "b")]
    files = [d + (f,) for d in dirs for f in ("x.t", "y.t")]
    needs = {f: "f1" if f[-1] == "x.t" else "f%d" % (2 + len(f) % 2) for f in files}
    cs = []
    for field, top, loc in LEVELS:
        for t in top:
            for ls in itertools.product(loc, repeat=3):
                if not ctx.thorough and field == "fmt" and ls[0] is not None and ls[0] is ls[1]:
                    continue
                mk = lambda v, **k: cfg(**dict(k, **{field: v}))
                base = {} if field == "pats" else {"pats": ["*.t"]}
                tree = Tree(dirs, files, [(("w",), (), "s", mk(t, **base))],
                            [(d, mk(l)) for d, l in zip(dirs, ls) if l is not None])
                cs.append(gen_disc.settings_case(tree, len(cs), needs if field in ("feats", "fmt") else {}, {"s": "abs"}))
    settings_validate(ctx, "every chain of settings of a bounded universe, field by field", cs, exhaustive=True)


def settings_random(ctx):
    r = ctx.rnd("settings")
    cs = []
    for n in range(3000 if ctx.thorough else 300):
        cs.append(gen_disc.random_settings_case(r, n, r.choice(gen_disc.TRIPLES) if r.random() < 0.3 else None))
    settings_validate(ctx, "random trees of settings", cs)


CHECKS = {"L09": [disc_model, settings_every, settings_random], "L06": [disc_model, disc_every, disc_random]}
NEED_BINARY = {"L06", "L09"}


def about(i):
    return {
        "L06": ("a TLA+ specification of discovery (Discovery.tla), its step by step form checked with TLC against the set it must find in every small "
                "world; real listings and runs of every command line about a bounded universe of worlds, and of random trees, are validated against it",
                "trees without links; source directories at or below the directory of their suite's file"),
        "L09": ("a TLA+ specification of what settings apply to a file (Discovery.tla, SettingsVal.tla), its inheritance checked step by step with TLC; "
                "what real tests were given under every chain of three levels, field by field, and under random ones, is validated against it",
                "three levels exhaustively per field, fields combined and deeper trees sampled; x86_64 Linux as host"),
    }[i]
