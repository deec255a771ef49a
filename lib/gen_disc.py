"""Trees of suites with local settings, and command lines about them."""
import json, os
from lit import toml_table


def bs(s):
    return list(s.encode())


def bpath(p):
    return [bs(n) for n in p]


NONE = {"k": "none", "extra": [], "unsup": []}


def cfg(pats=(), excl=(), env=(), subs=(), feats=(), fmt=None):
    return {"pats": list(pats), "excl": list(excl), "env": list(env), "subs": list(subs), "feats": list(feats), "fmt": fmt or NONE}


def cfg_toml(c, head=""):
    t = head
    for k, n in (("pats", "patterns"), ("excl", "exclude"), ("feats", "available_features")):
        if c[k]:
            t += "%s = %s\n" % (n, json.dumps(c[k]))
    for k, n in (("subs", "substitutions"), ("env", "env")):
        if c[k]:
            t += "[%s]\n" % n + toml_table(c[k])
    if c["fmt"]["k"] == "sh":
        t += "[format.%s]\n" % c["fmt"].get("as", "shtest")
        if c["fmt"]["extra"]:
            t += "[format.%s.extra_substitutions]\n" % c["fmt"].get("as", "shtest") + toml_table(c["fmt"]["extra"])
    elif c["fmt"]["k"] == "exe":
        t += "[format.%s]\n" % c["fmt"].get("as", "executable")
        if c["fmt"]["unsup"]:
            t += "unsupported = %s\n" % json.dumps(c["fmt"]["unsup"])
    return t


def kv(l):
    return [{"k": bs(k), "v": bs(v)} for k, v in l]


def tla_cfg(c):
    return {"pats": [bs(p) for p in c["pats"]], "excl": [bs(p) for p in c["excl"]], "env": kv(c["env"]), "subs": kv(c["subs"]),
            "feats": [bs(f) for f in c["feats"]],
            "fmt": {"k": c["fmt"]["k"], "extra": kv(c["fmt"]["extra"]), "unsup": [bs(f) for f in c["fmt"]["unsup"]]}}


class Tree:
    """dirs, files: tuples of names; suites: (dir, src, name, cfg); locals: (dir, cfg)"""

    def __init__(self, dirs, files, suites, locs=()):
        ds = set(dirs) | {tuple(p[:n]) for p in list(files) + list(dirs) for n in range(1, len(p))}
        self.dirs, self.files, self.suites, self.locals = sorted(ds), sorted(set(files)), list(suites), list(locs)

    def lay(self, w, at, text=lambda f: "RUN: true\n", work=None, mode=None):
        for d in self.dirs:
            os.makedirs(w.path(at, *d), exist_ok=True)
        for f in self.files:
            w.write("/".join((at,) + f), text(f), mode)
        for d, src, name, c in self.suites:
            head = "name = %s\n" % json.dumps(name)
            if src:
                head += "source_dir = %s\n" % json.dumps(["%s", "./%s", "%s/", w.path(at, *d) + "/%s"][sum(name.encode()) % 4] % "/".join(src))
            if work is not None and work(name):
                head += "working_dir = %s\n" % json.dumps(work(name))
            w.write("/".join((at,) + d + ("lit.suite.toml",)), cfg_toml(c, head))
        for d, c in self.locals:
            w.write("/".join((at,) + d + ("lit.local.toml",)), cfg_toml(c))

    def tla(self):
        files = self.files + [d + ("lit.suite.toml",) for d, _, _, _ in self.suites] + [d + ("lit.local.toml",) for d, _ in self.locals]
        return {"dirs": [bpath(d) for d in self.dirs], "files": [bpath(f) for f in files],
                "suites": [{"dir": bpath(d), "src": bpath(s), "name": bs(n), "cfg": tla_cfg(c)} for d, s, n, c in self.suites],
                "locals": [{"dir": bpath(d), "cfg": tla_cfg(c)} for d, c in self.locals]}

    def show(self):
        return "\n".join(["    " + "/".join(f) for f in self.files] +
                         ["    %s/lit.suite.toml: name %s, source %s\n        %s" % ("/".join(d), n, "/".join(s) or ".", cfg_toml(c).replace("\n", "\n        ").rstrip())
                          for d, s, n, c in self.suites] +
                         ["    %s/lit.local.toml:\n        %s" % ("/".join(d), cfg_toml(c).replace("\n", "\n        ").rstrip()) for d, c in self.locals])


def disc_case(tree, cwd, inputs, via="tests", flt=None, out=None):
    """inputs: (path text relative to cwd or absolute with @ for the root, its names relative to cwd)"""
    return {"tree": tree,
            "real": {"tree": tree.show(), "cwd": "/".join(cwd), "inputs": [t for t, _ in inputs], "via": via, "filter": flt, "out": out},
            "tla": dict(tree.tla(), cwd=bpath(cwd), inputs=[bpath(p) for _, p in inputs], via=via,
                        filter=[] if flt is None else [bs(flt)], out=[] if out is None else [bs(out)])}


GLOBS = ["*.t", "*", "**/*.t", "a/*", "?.t", "*/?.t", "[xy].t", "*[!x].t", "a/**/x.t", "**/b/*", "b/**", "x*", "*.txt", "ab/*.t", "*/*/*", "**", "*b*", "y.t", "?/*", "*[a-c]/x.t"]
NAMES = ["a", "b", "ab", ".c", "a.t"]
FILES = ["x.t", "y.t", ".h.t", "z.txt", "xy.t", "lit.t"]


def random_tree(r, settings=False, depth=3):
    dirs = [("w",), ("o",)]
    for _ in range(r.randint(1, 9)):
        p = r.choice([d for d in dirs if d[0] == "w" and len(d) <= depth])
        dirs.append(p + (r.choice(NAMES[:3] if r.random() < 0.85 else NAMES),))
    dirs = sorted(set(dirs))
    files = {d + (f,) for d in dirs for f in FILES if r.random() < 0.4}
    files -= set(dirs)
    below = lambda d: [e for e in dirs if e[:len(d)] == d and e != d]
    suites, names = [], ["s", "t", "s-1", "S u", "a::b", "s.x"]
    for d in dirs:
        if r.random() < (0.7 if len(d) == 1 else 0.25) and d[0] == "w" or r.random() < 0.02:
            src = ()
            if r.random() < 0.3 and below(d):
                src = r.choice(below(d))[len(d):]
            n = r.choice(names) if r.random() < 0.1 else names.pop(0) if names else "n%d" % len(suites)
            suites.append((d, src, n, cfg(r.sample(GLOBS, r.choice([1, 1, 2])) if r.random() < 0.5 else ["*.t"],
                                          r.sample(GLOBS, r.choice([0, 0, 0, 1, 1, 2])),
                                          fmt=r.choice([None, None, {"k": "exe", "extra": [], "unsup": []}]))))
    locs = [(d, cfg(r.sample(GLOBS, r.choice([0, 1, 2])), r.sample(GLOBS, r.choice([0, 0, 1])),
                    fmt=r.choice([None, None, {"k": "exe", "extra": [], "unsup": []}, {"k": "sh", "extra": [], "unsup": []}])))
            for d in dirs if r.random() < 0.25]
    return Tree(dirs, files, suites, locs)


RX = ["x", "a/", "^s::", "t$", "x\\.t", "[xy].t", "s.*a", "::x", "(a|b)/", "^S", "a/.+/", "zz", "y|x", ".", "^s::a/x.t$", "h"]


def random_disc(r, tree):
    cwd = ("w",)
    if r.random() < 0.15:
        cwd = r.choice([d for d in tree.dirs if d[0] == "w"])
    inputs = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
        pool = [p for p in tree.dirs + tree.files if p[:len(cwd)] == cwd]
        if r.random() < 0.5:
            pool = [p for p in pool if p in tree.files] or pool
        p = r.choice(pool)
        if r.random() < 0.05:
            p = r.choice(tree.dirs + tree.files + [cwd + ("nope",), cwd + ("nope", "x.t")])
        k = 0
        while k < min(len(p), len(cwd)) and p[k] == cwd[k]:
            k += 1
        rel = ("..",) * (len(cwd) - k) + p[k:] or (".",)
        x = r.random()
        if x < 0.15:
            t = "@/" + "/".join(p)
        elif x < 0.25:
            rel = (".",) + rel
            t = "/".join(rel)
        elif x < 0.35 and p in tree.dirs:
            t = "/".join(rel) + "/"
        elif x < 0.45 and p in tree.dirs and len(p) > 1:
            rel = rel + ("..", p[-1])
            t = "/".join(rel)
        elif x < 0.5:
            t = "//".join(rel)
        else:
            t = "/".join(rel)
        inputs.append((t, rel))
    via = r.choice(["tests", "tests", "tests", "suites", "run"])
    rx = lambda: None if via == "suites" or r.random() < 0.6 else r.choice(RX)
    return disc_case(tree, cwd, inputs, via, rx(), rx())


KEYS = ["%{a}", "%{b}", "%{c}"]
HOST = "x86_64-unknown-linux-gnu"


def settings_case(tree, n, needs, works, target=None):
    """needs: {file: feature}; works: {suite: one of "", "rel", "abs"}. Suites are renamed to be told apart."""
    ts = Tree(tree.dirs, tree.files, [(d, s, "G%d-%s" % (n, name), c) for d, s, name, c in tree.suites], tree.locals)
    at = "k%d" % n
    t = ts.tla()
    t["needs"] = [bs(needs.get(f, "")) for f in ts.files] + [[] for _ in t["files"][len(ts.files):]]
    for s, (d, _, name, _) in zip(t["suites"], tree.suites):
        k = works.get(name, "")
        s["work"] = bs("TEMP" if not k else "work" if k == "abs" else at + "/" + "/".join(d) + "/../k")
    return {"tree": ts, "at": at, "needs": needs, "works": {"G%d-%s" % (n, k): v for k, v in works.items()}, "target": target,
            "real": {"tree": ts.show(), "needs": {"/".join(f): v for f, v in needs.items()}, "works": works, "target": target},
            "tla": dict(t, cwd=[], inputs=[bpath(("w",))], outer=kv([("VL_A", "outer")]), keys=[bs(k) for k in KEYS],
                        host=bs(HOST), target=bs(target or HOST))}


FEATS = ["f1", "f2", "f3"]
TRIPLES = ["aarch64-unknown-linux-gnu", "x86_64-apple-darwin", "i686-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf", "aarch64-apple-darwin",
           "riscv64gc-unknown-linux-gnu", "x86_64-unknown-linux-musl"]
DEFAULTS = ["system-linux", "native", "target-x86_64", "x86_64-linux", "x86_64-apple", "target-aarch64", "target-x86", "target-arm", "target-riscv64gc",
            "system-linker-mach-o", "host=" + HOST, "target=" + HOST, "system-darwin"] + ["target=" + t for t in TRIPLES]


def random_settings(r, p):
    pick = lambda xs: r.sample(xs, r.choice([0, 0, 1, 1, 2]))
    fmt = None
    x = r.random()
    if x < p * 0.3:
        fmt = {"k": "exe", "extra": [], "unsup": r.sample(FEATS + DEFAULTS[:3], r.choice([0, 0, 1, 2])), "as": r.choice(["executable", "exe"])}
    elif x < p * 0.7:
        fmt = {"k": "sh", "extra": [(k, r.choice("789")) for k in pick(KEYS)], "unsup": [], "as": r.choice(["shtest", "sh"])}
    return cfg(r.sample(["*.t", "x*.t", "*/y.t", "**/*.t", "a/*.t", "[xy].t", "?.t", "*/*.t"], r.choice([0, 0, 1, 2])) if r.random() < p else [],
               r.sample(["x.t", "*y.t", "a/**/*.t", "b/*.t", "?.t", "*/*/x.t"], r.choice([0, 1, 1])) if r.random() < p * 0.5 else [],
               [(k, r.choice(["", "1", "2 3", "\u00e9", "$X"])) for k in r.sample(["VL_A", "VL_B", "VL_C"], r.choice([0, 1, 1, 2]))],
               [(k, r.choice(["1", "2", "x y", "$", "\\"])) for k in pick(KEYS)], pick(FEATS), fmt)


def random_settings_case(r, n, target=None):
    dirs = [("w",)]
    for _ in range(r.randint(1, 5)):
        p = r.choice([d for d in dirs if len(d) <= 4])
        dirs.append(p + (r.choice(["a", "b", "ab"]),))
    dirs = sorted(set(dirs))
    below = lambda d: [e for e in dirs if e[:len(d)] == d and e != d]
    suites, works = [], {}
    for d in dirs:
        if d == ("w",) or r.random() < 0.15:
            c = random_settings(r, 0.6)
            c["pats"] = c["pats"] or ["*.t"]
            src = r.choice(below(d))[len(d):] if below(d) and r.random() < 0.2 else ()
            suites.append((d, src, "s%d" % len(suites), c))
            works["s%d" % (len(suites) - 1)] = r.choice(["", "abs", "abs", "rel"])
    locs = [(d, random_settings(r, 0.5)) for d in dirs if r.random() < 0.5]
    files = [d + (f,) for d in dirs for f in ("x.t", "y.t") if r.random() < 0.6]
    needs = {f: r.choice(FEATS) if r.random() < 0.7 else r.choice(DEFAULTS) for f in files if r.random() < 0.4}
    return settings_case(Tree(dirs, files, suites, locs), n, needs, works, target)
