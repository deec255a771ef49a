"""Checks of the command line of FileCheck: F14."""
import itertools, os, shlex, subprocess
from concurrent.futures import ThreadPoolExecutor
import harness, fcase, val
import lit as L
from fcase import d, suse, nuse, sdef, num, var, cset, plus, pat_text, dir_text, strip, codes

_l = fcase.lit
P = lambda *a: d("plain", *a)
# what a line may check
DIRS = [P(_l("a")), P(_l("b")), P(_l("A")), P(_l("ab")), P(_l("c")), P(suse("X")), P(suse("Y")), P(nuse(var("N"))), P(sdef("X", cset("ab"))),
        d("next", _l("a")), d("next", suse("X")), d("same", _l("b")), d("not", _l("a")), d("not", _l("b")), d("empty"), d("label", _l("a")),
        d("label", _l("c")), d("dag", _l("b")), d("dag", _l("a")), d("count", _l("a"), n=2)]
PREFIXES = ["CHECK", "FOO", "BAR-X"]
LEADS = ["", "", "", "", "COM", "NOTE", "RUN"]


def line(x, px="CHECK", lead=""):
    return dict(x, px=px, lead=lead)


def line_text(x):
    return (x["lead"] + ": " if x["lead"] else "") + dir_text(x, x["px"])


def cli_case(words, opts, lines, std, file, feeds="input", via="FileCheck"):
    """opts: words of FILECHECK_OPTS, None if it is not set"""
    text = "".join(line_text(x) + "\n" for x in lines)
    ds = [strip(dict(x, ln=i + 1)) for i, x in enumerate(lines)]
    return {"real": {"words": words, "opts": opts, "checks": text, "std": std, "file": file, "feeds": feeds, "via": via},
            "tla": {"words": words, "opts": opts or [], "set": opts is not None, "lines": ds, "std": codes(std), "file": codes(file),
                    "feeds": feeds}}


def cli_run(part):
    with L.World() as w:
        os.makedirs(w.path("bin"), exist_ok=True)
        for n in ("FileCheck", "filecheck", "check", "litcheck"):
            os.symlink(harness.LBIN, w.path("bin/" + n))
        env = harness.run_env()
        env.pop("FILECHECK_OPTS", None)

        def one(ic):
            i, c = ic
            r = c["real"]
            at = w.path("c%d" % i)
            os.makedirs(at + "/d")
            with open(at + "/f", "w") as f:
                f.write(r["checks"])
            with open(at + "/g", "w") as f:
                f.write(r["file"])
            e = dict(env)
            if r["opts"] is not None:
                e["FILECHECK_OPTS"] = " ".join(shlex.quote(x) for x in r["opts"])
            v = r["via"].split()
            try:
                p = subprocess.run([w.path("bin/" + v[0])] + v[1:] + r["words"], cwd=at, env=e, timeout=60,
                                   input=(r["checks"] if r["feeds"] == "checks" else r["std"]).encode(), capture_output=True)
            except subprocess.TimeoutExpired:
                return {"verdict": "hang"}
            msg = (p.stdout + p.stderr)[-300:].decode(errors="replace")
            if p.returncode == 0:
                return {"verdict": "helped" if p.stdout else "passes", "msg": msg}
            return {"verdict": "refused" if p.returncode in (1, 2) else "crashed", "code": p.returncode, "msg": msg}
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, enumerate(part)))


def describe(c, o, a):
    r = c["real"]
    return ("FileCheck called this way does not end as specified\n  %s %s\n  FILECHECK_OPTS: %s\n  checks: %r\n  input: %r, in g: %r\n"
            "  real: %s %s\n  specified: %s" % (r["via"], r["words"], r["opts"], r["checks"], r["std"], r["file"], o["verdict"],
                                              o.get("msg", "").strip()[-160:], a))


def judge(ctx, name, cases, **extra):
    val.validate(ctx, name, "CliVal", "", cases, describe, run=cli_run, obsf=lambda o, c: {"verdict": o["verdict"]}, **extra)


# What may be given: lists of words
ITEMS = [["--allow-empty"], ["--ignore-case"], ["--enable-var-scope"], ["--allow-unused-prefixes"], ["--strict-whitespace"],
         ["--check-prefix", "FOO"], ["--check-prefixes=CHECK,FOO"], ["--check-prefixes", "FOO,BAR-X"], ["--check-prefix=BAR-X"], ["--check-prefix=CHECK"],
         ["--comment-prefix", "NOTE"], ["--comment-prefixes=NOTE,COM"], ["--comment-prefixes", "FOO"], ["--comment-prefix=CHECK"],
         ["-D", "X=a"], ["-DX=b"], ["-D=Y=ab"], ["--define", "Y=c"], ["--define=X=A"], ["-D#N=5"], ["-D", "#N=-1"], ["-vDX=b"], ["-DX="], ["-vvD", "Y=b"],
         ["--implicit-check-not", "b"], ["--implicit-check-not=ab"], ["--implicit-check-not=A"],
         ["--input-file", "g"], ["--input-file=g"], ["--input-file=-"], ["--input-file", "-"],
         ["-v"], ["-vv"], ["--verbose"], ["--dump-input", "never"], ["--dump-input=always"], ["--dump-input=help"], ["--dump-input-filter=all"],
         ["--dump-input-filter", "annotation-full"], ["--color=never"], ["--color", "always"]]
BAD = [["--nope"], ["-x"], ["-vx"], ["--allow-empty=true"], ["--allow"], ["--check-prefix="], ["--check-prefix=9"], ["--check-prefix", "A.B"],
       ["--check-prefix", "FOO,"], ["--comment-prefix=-"], ["--comment-prefix", "_A"], ["-D", "X"], ["-D", "=1"], ["-D1X=1"], ["-D", "#N"], ["-D#N="],
       ["-D#=1"], ["-D#N=x y"], ["--define=X-Y=1"], ["-D", "-x"], ["--input-file=nofile"], ["--input-file", "d"], ["--input-file="], ["--dump-input=foo"],
       ["--dump-input-filter", "none"], ["--color=blue"], ["--implicit-check-not="], ["--define"], ["--check-prefix"], ["-D"], ["--input-file"],
       ["--help"], ["-h"], ["--version"], ["-V"], ["g2"], ["d"], ["help"], [""], ["--"], ["-"]]
CHK = [[line(P(_l("a")))], [line(P(_l("A"))), line(P(_l("b")), "FOO")], [line(P(suse("X")))], [line(P(_l("a"))), line(P(_l("ab")), lead="NOTE")],
       [line(P(_l("a")), "FOO"), line(d("not", _l("b")), "CHECK", "COM")], [line(P(nuse(var("N")))), line(P(suse("Y")), "FOO")]]
INP = ["a\n", "ab\nb\n", "", "A b\n", "5 ab\n", "b\na\n"]


def pick(r):
    """checks and inputs"""
    if r.random() < 0.4:
        ls = r.choice(CHK)
    else:
        px = r.choice([["CHECK"], ["CHECK", "FOO"], PREFIXES])
        ls = [line(r.choice(DIRS), r.choice(px), r.choice(LEADS)) for _ in range(r.randint(1, 3))]
    def text():
        return r.choice(INP) if r.random() < 0.5 else "".join(r.choice(["a", "b", "ab", "c", "A", "5", "-1", " ", "\n"]) for _ in range(r.randint(0, 6)))
    s, f = text(), text()
    return ls, s, f


def flat(xs):
    return [w for x in xs for w in x]


VIA = ["FileCheck", "filecheck", "check", "litcheck filecheck", "litcheck FileCheck", "litcheck check"]


def every_pair(ctx):
    r = ctx.rnd("pairs")
    for place in ("command line", "FILECHECK_OPTS", "both"):
        cs = []
        for x, y in itertools.product(ITEMS + BAD, repeat=2):
            if not ctx.thorough and x in BAD and y in BAD and r.random() < 0.8:
                continue
            for _ in range(6 if ctx.thorough else 1):
                ls, s, f = pick(r)
                v = r.choice(VIA)
                if place == "command line":
                    ws = r.choice([[["f"], x, y], [x, ["f"], y], [x, y, ["f"]], [x, y, ["--", "f"]]])
                    cs.append(cli_case(flat(ws), None, ls, s, f, "input", v))
                elif place == "both":
                    cs.append(cli_case(flat(r.choice([[["f"], x], [x, ["f"]]])), y, ls, s, f, "input", v))
                elif r.random() < (1 if ctx.thorough else 0.4):
                    cs.append(cli_case(["f"], flat([x, y]), ls, s, f, "input", v))
        judge(ctx, "every two options, given on the %s, on checks and inputs picked at random" % place, cs, vocabulary=len(ITEMS + BAD))


def random_calls(ctx):
    r = ctx.rnd("calls")
    cs = []
    for _ in range(60000 if ctx.thorough else 5000):
        ls, s, f = pick(r)
        bad = r.random() < 0.15
        def some(n):
            return [r.choice(BAD if bad and r.random() < 0.4 else ITEMS) for _ in range(n)]
        feeds = "checks" if r.random() < 0.15 else "input"
        ws = some(r.choice([0, 1, 2, 3, 4, 6]))
        if feeds == "checks" and r.random() < 0.8:
            ws.append(["--input-file", "g"])
        ws.insert(r.randint(0, len(ws)), ["f"] if feeds == "input" else ["-"])
        opts = None
        if r.random() < 0.6:      # options that collect values, on one side only
            given = {collects(y) for y in ws}
            opts = flat(x for x in some(r.choice([0, 1, 1, 2, 3])) if not collects(x) or collects(x) not in given)
        cs.append(cli_case(flat(ws), opts, ls, s, f, feeds, r.choice(VIA)))
    judge(ctx, "random calls", cs)


def collects(item):
    w = item[0] if item else ""
    for n in ("check-prefix", "comment-prefix", "implicit"):
        if w.startswith("--" + n):
            return n
    return "define" if w.startswith("--define") or (w.startswith("-") and "D" in w and not w.startswith("--")) else None


def words_at_random(ctx):
    """Single words, put together without regard to what belongs together"""
    r = ctx.rnd("words")
    vocab = sorted(set(flat(ITEMS + BAD))) + ["f", "g", "f", "X=1", "FOO", "#N=3", "never"]
    cs = []
    for _ in range(40000 if ctx.thorough else 3000):
        ls, s, f = pick(r)
        ws = [r.choice(vocab) for _ in range(r.randint(0, 4))]
        ws.insert(r.randint(0, len(ws)), "f")
        opts = None if r.random() < 0.7 else [r.choice(vocab) for _ in range(r.randint(0, 3))]
        cs.append(cli_case(ws, opts, ls, s, f, "input", r.choice(VIA)))
    judge(ctx, "random words", cs)


def model(ctx):
    val.model(ctx, "every reading of every short list of words", "CliMC", cfg="CliMCT.cfg" if ctx.thorough else None)


CHECKS = {"F14": [model, every_pair, random_calls, words_at_random]}
NEED_BINARY = {"F14"}


def about(i):
    return ("a TLA+ specification of how FileCheck reads its words and FILECHECK_OPTS (Cli.tla), checked with TLC, makes cases of the "
            "specification of FileCheck (FileCheck.tla); real calls of the binary are validated against both with TLC",
            "exhaustive in pairs of options out of a vocabulary, sampled (seeded) in the checks and inputs they are applied to")
