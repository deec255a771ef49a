"""Checks of the properties about lit: L01 .. L09."""
import itertools, json
import lit, val
from gen_lit import Suite, case


def bs(s):
    return list(s.encode())


# ---------------------------------------------------------------- L05: feature expressions
def bool_case(text, sets):
    return {"real": {"text": text, "sets": sets},
            "tla": {"text": bs(text), "sets": [[bs(f) for f in s] for s in sets]}}


def bool_describe(c, o, a):
    return ("a feature expression does not mean what its specification says\n  expression: %r\n  sets of features: %s\n"
            "  real: %s\n  specified: %s" % (c["real"]["text"], c["real"]["sets"], o, str(a)[:600]))


def bool_validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "BoolExprVal", "bool", cases, bool_describe, chunk=20000, verdicts=True,
                 obsf=lambda o, c: {"verdict": o["verdict"], "values": o.get("values", [])}, **extra)


def subsets(xs):
    return [list(s) for n in range(len(xs) + 1) for s in itertools.combinations(xs, n)]


BOOL = [
    (["a", "b", "!", "(", ")", "&&", "||"], 5, 6, subsets(["a", "b"]), ""),
    (["a", "b", "!", "(", ")", "&", "|", " ", "true", "false"], 4, 5, subsets(["a", "b"]), ""),
    (["a", "b", "{{", "}}", "{", "}", "!", "|", "*", "&&", " "], 4, 5, subsets(["a", "b", "ab"]), ""),
    (["{{a}}", "{{a|b}}", "{{a*b}}", "{{[^a]}}", "{{^b$}}", "c", ".", " ", "||"], 4, 4,
     [[], ["a"], ["b"], ["ca"], ["c.a", "b"], ["c.b"], ["bac"], ["a.c", "cc"]], ""),
    (["a", "-", "+", "=", "_", "0", "Z", ",", "\t", "\u00e9", "\0"], 3, 4,
     [[], ["a"], ["-"], ["a-"], ["a=0"], ["+", "_Z"], ["Z0_"]], ""),
]


def bool_every(ctx):
    cs, seen = [], set()
    for toks, q, t, sets, _ in BOOL:
        for n in range(0, (t if ctx.thorough else q) + 1):
            for seq in itertools.product(toks, repeat=n):
                s = "".join(seq)
                if s not in seen:
                    seen.add(s)
                    cs.append(bool_case(s, sets))
    bool_validate(ctx, "every expression of bounded universes recorded and validated", cs, exhaustive=True,
                  universes=[{"tokens": u[0], "length": u[2] if ctx.thorough else u[1], "feature_sets": u[3]} for u in BOOL])


def bool_random(quick, thorough):
    names = ["a", "b", "ab", "x-1", "a.b", "linux", "target=x86_64-linux", "not", "true", "false", "TRUE"]
    rx = ["a", "b", "a|b", ".", "x.*", "^a", "b$", "[a-l]+", "(a|x)-?", "target=.*", "a{1,2}", "(", "[^a]", "a+b?", "\\d"]

    def go(ctx):
        r = ctx.rnd("bool")

        def expr(d):
            k = r.random()
            if d == 0 or k < 0.25:
                k = r.random()
                if k < 0.6:
                    return r.choice(names)
                return "".join(r.choice([r.choice(names), "{{%s}}" % r.choice(rx)]) if i else "{{%s}}" % r.choice(rx)
                               for i in range(r.randint(1, 3)))
            sp = lambda: r.choice(["", " ", " ", "  ", "\t"])
            if k < 0.45:
                return "!" + sp() + expr(d - 1)
            if k < 0.6:
                return "(" + sp() + expr(d - 1) + sp() + ")"
            return expr(d - 1) + sp() + r.choice(["&&", "||"]) + sp() + expr(d - 1)
        cs = []
        for _ in range(thorough if ctx.thorough else quick):
            s = expr(r.randint(0, 4))
            if r.random() < 0.2:      # break it
                p = r.randrange(len(s) + 1)
                s = s[:p] + r.choice(["&", "|", "(", ")", "!", " ", "a", "{{", "}}", "{", "}", "$", ""]) + s[p + r.choice([0, 1]):]
            if len(s) > 120:
                continue
            sets = [[x for x in names + ["xx", "aab", "lx86"] if r.random() < q] for q in (0.05, 0.15, 0.3, 0.5, 0.8)]
            cs.append(bool_case(s, sets + [[]]))
        bool_validate(ctx, "random expressions recorded and validated", cs)
    return go


def bool_model(ctx):
    val.model(ctx, "every expression up to a depth is read back as written, with the same meaning", "BoolExprMC")


# ---------------------------------------------------------------- L01 .. L04: tests
def run_describe(c, o, a):
    log = lambda l: "\n".join("    " + " ".join("".join(map(chr, w)) for w in r) for r in l) or "    nothing"
    spec = ""
    for t in a[:1]:
        e = json.loads(t)
        spec = "\n  specified: %s, having run\n%s" % (e["status"], log(e["log"]))
    r = c["real"]
    return ("a test is not run as its specification says\n  features %s, substitutions %s, extra %s%s\n  file %s:\n%s\n"
            "  real: %s, having run\n%s%s\n%s" % (
                r["features"], r["subs"], r["extra"], ", --no-execute" if r["noexec"] else "", r["rel"],
                "\n".join("    |" + l for l in r["text"].split("\n")), o["status"], log(o["log"]), spec, o.get("msg", "")))


def run_validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "LitRunVal", "", cases, run_describe, run=lit.run_tests, chunk=4000,
                 obsf=lambda o, c: {"status": o["status"], "log": o["log"]}, **extra)


def lines_universe(name, universes):
    def go(ctx):
        cs = []
        for suites, lines, q, t in universes:
            for s in suites:
                for n in range(0, (t if ctx.thorough else q) + 1):
                    for seq in itertools.product(lines, repeat=n):
                        cs.append(case(s, "".join(seq), len(cs)))
        run_validate(ctx, name, cs, exhaustive=True,
                     universes=[{"suites": [str(s.key()) for s in u[0]], "lines": u[1], "length": u[3] if ctx.thorough else u[2]}
                                for u in universes])
    return go


F, NX = Suite(["f"]), Suite(["f"], noexec=True)
STATUS = [([F], ["RUN: r @ a 0\n", "RUN: r @ b 1\n", "RUN: r @ c k\n", "REQUIRES: f\n", "REQUIRES: f, g\n", "UNSUPPORTED: f && !g\n",
                 "UNSUPPORTED: g\n", "XFAIL: *\n", "XFAIL: g\n", "ALLOWED_RETRIES: 1\n", "RUN: r @ d 1_0\n"], 3, 4),
          ([NX], ["RUN: r @ a 0\n", "RUN: r @ b 1\n", "REQUIRES: g\n", "REQUIRES: f\n", "UNSUPPORTED: *\n", "XFAIL: *\n",
                  "REQUIRES:\n", "DEFINE: %{x} = 1\n"], 2, 3)]
RETRY = [([F], ["RUN: r @ a 0\n", "RUN: r @ b 1_0\n", "RUN: r @ c 2_1_0_1\n", "RUN: r @ d 1_k\n", "RUN: r @ e 1\n",
                "ALLOWED_RETRIES: 0\n", "ALLOWED_RETRIES: 1\n", "ALLOWED_RETRIES: 3\n", "ALLOWED_RETRIES: -1\n", "XFAIL: f\n"], 3, 4)]
SCRIPT = [([F], ["RUN: r @ a 0 x \\\n", "RUN: y\n", "# RUN:r @ b 0  'z  z'  \n", "RUN: r @ c 1\n", "RUN: r @ d 0 ; false || r @ e 0\n",
                 "END.\n", "END. now\n", "text\n", "XFAIL: \\\n", "RUN: false && r @ f 0\n", "RUN: exit 0\n", "DEFINE: %{a} = 1 \\\n"], 3, 4)]
C = Suite(["f"], [("%{c}", "7 %s"), ("%d", "D %{c}"), ("e", "E")], [("%d", "over"), ("%n", "not %S")])
SUBST = [([C], ["DEFINE: %{x} = 1\n", "DEFINE: %{x} = 2 %{y} %s\n", "REDEFINE: %{x} = 3\n", "DEFINE: %{y} = '$r' %{x}\n",
                "RUN: r @ a 0 %{x}\n", "RUN: r @ b 0 %{y} %%{x} %%%{x} %d\n", "REDEFINE: %{c} = 9 %% %basename_t\n", "DEFINE: %{c} = 8\n",
                "RUN: r @ c 0 %{c} '%n n' %(line) '%(line+1)%(line -  2)' %t\n"], 3, 4)]


def tests_random(flavour, quick, thorough):
    """Longer tests in odd shapes, with the emphasis on what the flavour says."""
    def go(ctx):
        r = ctx.rnd("tests")
        feats = ["f", "g", "linux", "x86_64-linux", "a.b", "native"]
        cond = ["f", "g", "!f", "f && g", "f || g", "(f)", "{{f|g}}", "*", "linux", "native", "!(f || linux)", "a.b", "", "f &", "true"]
        keys = ["%{x}", "%{y}", "%{xy}", "%{_a-b:1}", "%{c}", "%{d}"]
        vals = ["1", "one two", "", "'q  q'", "%s", "%{x}", "%{y}z", "%%", "%%{x}", "$", "'$HOME'", "'$0 ${1} $x'", "%d", "-", "%(line)", "not", "a=b"]
        args = ["x", "%s", "%S", "%t", "%%", "%%s", "%%%s", "%", "%q", "%{x}", "%{y}", "%{xy}", "%{_a-b:1}", "%{c}", "%{d}", "%{nope}", "%%{x}",
                "%(line)", "'%(line+1)'", "'%(line - 12)'", "'%(line +3)'", "'%(lin)'", "'%(line*2)'", "%basename_t", "%d", "%n", "'a  b'",
                "%{pathsep}", "%{fs-sep}", "%{fs-src-root}", "not", "FileCheck", "'not '", "' filecheck x'", "é", "nota", "%target", "''", "'\\'"]
        suites = []
        for _ in range(40 if ctx.thorough else 12):
            ks = r.sample(["%{c}", "%{d}", "%d", "%n", "%", "nota", "%{x}", "%s", "x", "%%", "a b", "-"], r.randint(0, 4))
            ex = r.sample(["%{c}", "%d", "%n", "%t", "%S", "%{y}", "="], r.randint(0, 2)) if r.random() < 0.5 else []
            suites.append(Suite(r.sample(feats[:5], r.randint(0, 3)), [(k, r.choice(vals)) for k in ks], [(k, r.choice(vals)) for k in ex],
                                noexec=r.random() < 0.1, shell=r.choice([None, None, "sh", "bash"])))

        def command(codes):
            c = "r @ %s %s" % (r.choice("abcd"), r.choice(codes))
            for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
                c += r.choice([" ", " ", "  ", "\t"]) + r.choice(args)
            return c

        def one():
            k = {"status": 0.5, "retry": 0.2, "script": 0.3, "subst": 0.1}[flavour]
            codes = {"retry": ["1_0", "1_1_0", "1", "0", "2_0_1", "0_1", "1_k", "0_0_1_0"], "subst": ["0", "0", "0", "1"],
                     "status": ["0", "0", "1", "1_0", "k"], "script": ["0", "0", "0", "1", "k"]}[flavour]
            ls = []
            for _ in range(r.randint(1, 9)):
                x = r.random()
                if x < 0.45:
                    c = command(codes)
                    while r.random() < {"script": 0.35}.get(flavour, 0.1):
                        c += r.choice([" ; ", " && ", " || "]) + (command(codes) if r.random() < 0.7 else r.choice(["true", "false", "exit 0", "exit 3"]))
                    if r.random() < {"script": 0.4}.get(flavour, 0.1):      # broken into several lines
                        ws = c.split(" ")
                        out = []
                        for w in ws:
                            out.append(w + (" " if r.random() < 0.8 else " \\\n" + r.choice(["", "  ", "// "]) +
                                            (r.choice(["RUN:", "RUN: ", "RUN:   "]) if r.random() < 0.97 else r.choice(["", "RUN", "XFAIL: "]))))
                        c = "".join(out).rstrip(" ")
                    ls.append(r.choice(["", "# ", "// ", "  ", ";; x "]) + r.choice(["RUN: ", "RUN:", "RUN:\t "]) + c + r.choice(["", "", " ", "  \t"]))
                elif x < 0.45 + k * 0.6:
                    ls.append(r.choice(["REQUIRES: ", "UNSUPPORTED: ", "XFAIL: ", "XFAIL:", "// XFAIL: "]) + ", ".join(r.choice(cond) for _ in range(r.choice([1, 1, 1, 2]))))
                elif x < 0.8 and flavour in ("subst", "script"):
                    v = r.choice(vals) if r.random() < 0.7 else r.choice(vals) + r.choice(["", " "]) + r.choice(vals)
                    if r.random() < 0.15:
                        v += r.choice([" ", ""]) + "\\\n" + r.choice(["DEFINE: ", "DEFINE:", "REDEFINE: ", "#DEFINE:  "]) + r.choice(vals)
                    ls.append(r.choice(["DEFINE: ", "DEFINE:", "REDEFINE: ", "# REDEFINE: "]) +
                              (r.choice(keys) if r.random() < 0.95 else r.choice(["%x", "{x}", "%{}", "%{1}", "%{x y}", "x", "", "%{x}y"])) + r.choice([" = ", "=", " ="]) + v)
                elif x < 0.88 and flavour != "status":
                    ls.append("ALLOWED_RETRIES:" + r.choice([" 1", " 2", "3 ", " 0", " +1", "", " x", " 1 2", " -1"]))
                elif x < 0.94:
                    ls.append(r.choice(["END.", " END. ", "END. x", "END", "# END.\t"]))
                else:
                    ls.append(r.choice(["", "text", "RUN", "run: r @ z 0", "XFAIL", "// r @ z 0", "DEFINE x"]))
            nl = "\r\n" if r.random() < 0.1 else "\n"
            return nl.join(ls).replace("\n", nl if nl == "\n" else "\n") + (nl if r.random() < 0.8 else "")
        cs = []
        for _ in range(thorough if ctx.thorough else quick):
            cs.append(case(r.choice(suites), one(), len(cs), sub=r.choice(["", "", "", "sub", "a/b"])))
        run_validate(ctx, "random tests run and validated", cs)
    return go


def run_model(ctx):
    val.model(ctx, "every run of every bounded plan", "LitRunMC", cfg="LitRunMCT.cfg" if ctx.thorough else None)


def script_model(ctx):
    val.model(ctx, "laws of placeholders and definitions", "ShScriptMC", cfg="ShScriptMCT.cfg" if ctx.thorough else None)


CHECKS = {"L05": [bool_model, bool_every, bool_random(6000, 100000)],
          "L01": [run_model, lines_universe("every test of bounded universes run and validated", STATUS), tests_random("status", 600, 12000)],
          "L02": [run_model, lines_universe("every test of bounded universes run and validated", RETRY), tests_random("retry", 600, 12000)],
          "L03": [run_model, lines_universe("every test of bounded universes run and validated", SCRIPT), tests_random("script", 900, 15000)],
          "L04": [script_model, lines_universe("every test of bounded universes run and validated", SUBST), tests_random("subst", 1200, 20000)]}
NEED_BINARY = {"L01", "L02", "L03", "L04"}

RUNS = ("a TLA+ specification of test files, placeholders and the shell's command lists (ShScript.tla) and of the run of a test as a "
        "state machine (LitRun.tla), its laws and invariants checked with TLC; real litcheck runs of every test of bounded universes "
        "and of random tests, whose commands write down what they are given, are validated against it with TLC")
SHLIMIT = "the shell is specified only for plain and quoted words and lists of commands; placeholders given as regular expressions only for the built-in ones"


def about(i):
    return {
        "L01": (RUNS, SHLIMIT), "L02": (RUNS, SHLIMIT + "; at most three retries"), "L03": (RUNS, SHLIMIT), "L04": (RUNS, SHLIMIT),
        "L05": ("a TLA+ specification of the grammar and meaning of feature expressions (BoolExpr.tla), its laws checked with TLC; "
                "the real answers to every expression of bounded universes and to random ones are validated against it with TLC",
                "expressions up to 5 or 6 words exhaustively, larger ones sampled; bytes above 127 only as one sample"),
    }[i]
