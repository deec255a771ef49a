"""Checks of the property about configurations which cannot be used: L12."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import lit as L, val

CONF = re.compile(r"([^\s\[]*)/lit\.(suite|local)\.toml")
DIRS = [(), ("a",), ("a", "b"), ("n",), ("n", "m")]
BROKEN = ["[env", "x = ", "= 1", "x == 1", "\"x = 1", "x = 1 y = 2", "x = [1,", "{}", "x", "x = 'a", "x = {a = 1", "[[x]", "x = tru", "x.y = 1\nx = 2", "[env]\n[env]", "x = \"\\q\""]


def s(x, at=""):
    return {"t": "str", "s": [ord(c) for c in x], "at": at, "x": x}


def l(*a):
    return {"t": "list", "a": list(a)}


def m(*kv):
    return {"t": "map", "m": [{"k": k, "v": v} for k, v in kv]}


INT, BOOL, FLOAT, DATE = ({"t": t} for t in ("int", "bool", "float", "date"))
ODD = [INT, BOOL, FLOAT, DATE]
GLOBS = ["*.t", "**/*.t", "**", "a/**", "[a-c].t", "[!a]*", "t.?", "*.[a", "[", "***", "a**", "**a", "[]", "[!]", "[]]", "[!]]", "a/**/b", "]", "[[]", "*/*", "**/**", "a/**b"]
EXPRS = ["a", "a && b", "!(a || b)", "", " ", "a &&", "(a", "a b", "a || || b", "!", "a)", "a+b", "a, b", "a & b", "true", "{{a", "{{a}}"]
PATHS = [("", "own"), (".", "dir"), ("../other", "dir"), ("nowhere", "none"), ("here.txt", "file"), ("@/other", "dir"), ("@/nowhere", "none"), ("@/here.txt", "file"), ("here.txt/x", "none"), ("./.", "dir")]
SH = [m(), m(("shell", s("sh"))), m(("shell", INT)), m(("shell", l(s("sh")))), m(("pipefail", BOOL)), m(("pipefail", s("true"))), m(("pipefail", INT)), m(("extra_substitutions", m(("%q", s("1"))))),
      m(("extra_substitutions", m(("%q", INT)))), m(("extra_substitutions", l())), m(("other", INT)), m(("shell", s("sh")), ("shell", s("sh"))), m(("shell", s("sh")), ("pipefail", BOOL)), s("sh"), INT, BOOL]
EXE = [m(), m(("unsupported", l())), m(("other", INT)), m(("unsupported", s("a"))), m(("unsupported", l(INT))), m(("unsupported", l(s("a"), s("a &&")))), s("x"), INT] + [m(("unsupported", l(s(e)))) for e in EXPRS]
VALUES = {
    "name": [s("s"), s("a b"), s("é"), s(""), l(s("s")), m()] + ODD,
    "patterns": [l(), l(s("*.t"), s("*.u")), l(s("*.t"), INT), s("*.t"), m(), l(l(s("*.t")))] + ODD + [l(s(g)) for g in GLOBS],
    "exclude": [l(), l(s("*.u"), s("[")), s("*.u"), m(("a", s("b")))] + ODD + [l(s(g)) for g in GLOBS],
    "available_features": [l(), l(s("a"), s("b")), l(s("a"), s("a")), l(s("a"), INT), l(l()), s("a"), m(), m(("a", BOOL))] + ODD,
    "env": [m(), m(("A", s("b"))), m(("A", INT)), m(("A", s("b")), ("B", BOOL)), m(("A", l())), m(("A", m())), m(("A", s("b")), ("A", s("c"))), l(), l(s("A=b")), s("A=b"), INT, BOOL, FLOAT],
    "substitutions": [m(), m(("%q", s("b"))), m(("%q", INT)), m(("%q", s("b")), ("%r", FLOAT)), m(("%q", s("")), ("%r", s(""))), m(("%q", s("b")), ("%q", s("c"))), l(), s("%q"), INT, BOOL, FLOAT],
    "format": [s("Default", "Default"), s("sh"), s(""), m(), m(("sh", m()), ("exe", m())), m(("bash", m())), m(("Sh", m())), m(("shtest", m()), ("sh", m())), l(), l(s("sh"))] + ODD
              + [m((k, x)) for k in ("sh", "shtest") for x in SH] + [m((k, x)) for k in ("exe", "executable") for x in EXE],
    "source_dir": [s("", "own"), s(".", "dir"), s("nowhere", "none"), s("here.txt", "file"), s("@/nowhere", "none"), s("@/here.txt", "file"), l(), m()] + ODD,
    "working_dir": [s(x, y) for x, y in PATHS] + [l(), m(), l(s("."))] + ODD,
    "other": [s("x"), INT, l(INT, BOOL), m(("a", m())), m(("a", INT), ("a", INT)), DATE],
}


def toml(v, root):
    t = v["t"]
    if t == "str":
        return json.dumps(v["x"].replace("@", root), ensure_ascii=False)
    if t == "list":
        return "[%s]" % ", ".join(toml(x, root) for x in v["a"])
    if t == "map":
        return "{%s}" % ", ".join("%s = %s" % (json.dumps(e["k"]), toml(e["v"], root)) for e in v["m"])
    return {"int": "1", "bool": "true", "float": "1.5", "date": "2020-01-01"}[t]


def text(f, root):
    """The text of a file, sections of pairs as such where said so"""
    lines, tail = [], []
    for e in f["es"]:
        if e.get("section"):
            tail += ["[%s]" % e["k"]] + ["%s = %s" % (json.dumps(x["k"]), toml(x["v"], root)) for x in e["v"]["m"]]
        else:
            lines.append("%s = %s" % (e["k"], toml(e["v"], root)))
    if f["broken"]:
        lines.insert(f["at"] % (len(lines) + 1), f["broken"])
    return "\n".join(lines + tail) + "\n"


def pure(v):
    return {k: ([pure(x) for x in v[k]] if k == "a" else [{"k": e["k"], "v": pure(e["v"])} for e in v[k]] if k == "m" else v[k]) for k in v if k != "x"}


def case(files, inputs, via="run"):
    """files: [{dir, kind, es, broken: "" or a line, at}]; inputs: [(dir, file or None)]"""
    return {"real": {"files": files, "inputs": inputs, "via": via},
            "tla": {"files": [{"dir": list(f["dir"]), "kind": f["kind"], "broken": bool(f["broken"]),
                               "es": [{"k": e["k"], "v": pure(e["v"])} for e in f["es"]]} for f in files],
                    "inputs": [{"dir": list(d), "all": t is None} for d, t in inputs]}}


def entry(k, v, section=False):
    return {"k": k, "v": v, "section": section}


def conf(d, kind, *es, broken="", at=0):
    return {"dir": d, "kind": kind, "es": list(es), "broken": broken, "at": at}


def run_conf(part):
    with L.World() as w:
        def one(ic):
            i, c = ic
            r = c["real"]
            at, root = "c%d" % i, w.path("c%d" % i)
            for d in DIRS:
                w.write("/".join((at, "r") + d + ("t.t",)), "RUN: echo x >> %s/ran\n" % root)
                w.write("/".join((at, "r") + d + ("here.txt",)), "\n")
                os.makedirs(os.path.join(root, "r", *d[:-1], "other") if d else os.path.join(root, "other"), exist_ok=True)
            for d in ("tmp", "other"):
                os.makedirs(w.path(at, d), exist_ok=True)
            for f in r["files"]:
                w.write("/".join((at, "r") + tuple(f["dir"]) + ("lit.%s.toml" % f["kind"],)), text(f, root))
            args = ["run"] if r["via"] == "run" else ["show-tests"]
            rc, out, err = w.run(args + ["/".join(("r",) + tuple(d) + ((t,) if t else ())) for d, t in r["inputs"]], cwd=root, timeout=60, env={"TMPDIR": w.path(at, "tmp"), "NO_COLOR": "1"})
            if rc is None or rc < 0 or rc == 101:
                return {"verdict": "hang" if rc is None else "crash", "msg": (out + err)[-600:]}
            none = "no tests selected" in out + err or "did not discover any" in out + err
            over = "Total Discovered Tests:" in out if r["via"] == "run" else rc == 0
            ran = w.path(at, "ran")
            named = {(x, y) for x, y in CONF.findall(err + out)}
            return {"verdict": "ok", "refused": rc != 0 and not over and not none, "msg": "exit %s\n%s" % (rc, (out + err)[-700:]),
                    "ran": len(open(ran).read().split()) if os.path.exists(ran) else 0,
                    "named": [{"dir": [p for p in x[len(root) + 2:].split("/") if p], "kind": y} if x.startswith(root + "/r") else {"dir": ["?"], "kind": x} for x, y in sorted(named)]}
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, enumerate(part)))


def describe(c, o, a):
    r = c["real"]
    return "configurations are not used or refused as specified\n%s\n  lit %s %s\n  real: %s\n  specified: %s" % (
        "\n".join("--- r/%s (lit.%s.toml)\n%s" % ("/".join(f["dir"]), f["kind"], text(f, "@")) for f in r["files"]), r["via"], r["inputs"], o, a)


def validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "LitConfigVal", "", cases, describe, run=run_conf, chunk=3000, obsf=lambda o, c: {k: o[k] for k in ("refused", "named", "ran")}, **extra)


NAME, PATS = entry("name", s("s")), entry("patterns", l(s("*.t")))
PLACES = [((), "suite"), (("n",), "suite"), ((), "local"), (("a",), "local"), (("a", "b"), "local"), (("n", "m"), "local")]


def around(f):
    """f and the files it needs to be one of"""
    fs = [] if (f["dir"], f["kind"]) == ((), "suite") else [conf((), "suite", NAME, PATS)]
    if f["dir"][:1] == ("n",) and f["kind"] == "local":
        fs.append(conf(("n",), "suite", entry("name", s("n")), PATS))
    return fs + [f]


def enumerated(ctx):
    cs = []
    for d, kind in PLACES:
        base = [NAME, PATS] if kind == "suite" else []
        variants = [conf(d, kind, *[e for e in base if e["k"] != k], entry(k, v)) for k in VALUES for v in VALUES[k]]
        variants += [conf(d, kind, *base, broken=b, at=n) for b in BROKEN for n in (0, 9)]
        variants += [conf(d, kind), conf(d, kind, *base), conf(d, kind, *base, *base), conf(d, kind, PATS)]
        if not ctx.thorough and (d, kind) not in (PLACES[0], PLACES[3]):
            variants = variants[len(cs) % 3::3]
        for f in variants:
            for inp in [[((), None)]] if not ctx.thorough else [[((), None)], [(("a",), None)], [(("a",), "t.t")], [(("n",), None), ((), "t.t")]]:
                cs.append(case(around(f), inp))
    validate(ctx, "every entry of a table, in every place", cs, exhaustive=ctx.thorough)


def random_confs(q, t):
    def go(ctx):
        r = ctx.rnd("conf")

        def value(k):
            vs = VALUES[k]
            return vs[0] if r.random() < 0.6 else vs[1] if r.random() < 0.5 else r.choice(vs)

        def any_conf(d, kind):
            es = [entry("name", s("s%s" % len(d))), PATS] if kind == "suite" else []
            for k in VALUES:
                if r.random() < 0.2:
                    es = [e for e in es if e["k"] != k or r.random() < 0.05]
                    v = value(k)
                    es.append(entry(k, v, section=v["t"] == "map" and r.random() < 0.5))
            r.shuffle(es)
            return conf(d, kind, *es, broken=r.choice(BROKEN) if r.random() < 0.04 else "", at=r.randrange(9))
        cs = []
        for _ in range(t if ctx.thorough else q):
            fs = [any_conf((), "suite")]
            if r.random() < 0.5:
                fs.append(any_conf(("n",), "suite"))
            if r.random() < 0.2:
                fs.append(any_conf(("a", "b"), "suite"))
            for d in DIRS:
                if r.random() < 0.4:
                    fs.append(any_conf(d, "local"))
            inp = [(r.choice(DIRS), r.choice([None, None, "t.t"])) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            cs.append(case(fs, inp, via=r.choice(["run", "run", "run", "list"])))
        validate(ctx, "random configurations in random places", cs)
    return go


CHECKS = {"L12": [enumerated, random_confs(1500, 15000)]}
NEED_BINARY = {"L12"}


def about(i):
    return ("a TLA+ specification of what the configuration files of tests may contain and of the files a run depends on (LitConfig.tla); what real litcheck does "
            "with every entry of a table in every place, and with random files in random places, is validated against it with TLC",
            "the keys and values are those of tables; TOML itself is sampled by lines that are none; values given as lists where a table is meant are left out, "
            "and so are substitutions whose name is no regular expression")
