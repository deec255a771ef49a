"""Checks of the command line of lit: L10."""
import itertools, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import harness, val
import lit as L

GROUP = re.compile(r"^\*{20} (.+) Tests \((\d+)\):$")
LABELS = {"Excluded": "EXCLUDED", "Skipped": "SKIPPED", "Unsupported": "UNSUPPORTED", "Passed": "PASS", "Passed With Retry": "FLAKYPASS",
          "Failed As Expected": "XFAIL", "Unresolved": "UNRESOLVED", "Timed Out": "TIMEOUT", "Failed": "FAIL", "Unexpectedly Passed": "XPASS"}
FILES = ["s/a.t", "s/b.t", "s/p/c.t", "u/d.t", "u/e.t"]
TESTS = [f.replace("/", "::", 1) for f in FILES]
PATHS = {"s": ([1, 2, 3], ["s"]), "s/": ([1, 2, 3], ["s"]), "./s": ([1, 2, 3], ["s"]), "u": ([4, 5], ["u"]), "s/a.t": ([1], ["s"]), "s/b.t": ([2], ["s"]),
         "s/p": ([3], ["s"]), "u/e.t": ([5], ["u"]), "e": ([], []), "d1": ([], []), "d2": ([], []), "d3": ([], [])}
FEATURES = ["native", "target-x86_64", "target-aarch64", "target-arm", "target-x86", "system-linker-mach-o", "x86_64-apple", "x86_64-linux", "system-linux",
            "target=aarch64-apple-darwin", "host=x86_64-unknown-linux-gnu", "target=x86_64-unknown-linux-gnu", "f1", "f2", "f3"]


def world(r, slow=False):
    ts = []
    for n in range(len(FILES)):
        does = r.choice(["ok", "ok", "fails", "tool", "tool"])
        ts.append({"name": TESTS[n], "suite": TESTS[n][0], "does": does, "needs": [r.choice(FEATURES)] if r.random() < 0.5 else []})
    if slow:
        ts[r.randrange(len(ts))].update(does="slow", needs=[])
    # the directories of PATH, as the environment of a suite has it
    walks = {s: r.choice([["d0"], ["d1"], ["d2", "d1"], ["d3"], []]) for s in "su" if r.random() < 0.3}
    return {"tests": ts, "walks": walks, "features": {s: r.sample(["f1", "f2", "f3"], r.choice([0, 1, 2])) for s in "su"}}


def case(words, w, fin="", fout="", path=False, tools=("good", "bad", "good"), via="lit"):
    has = {"d1": tools[0], "d2": tools[1], "d0": tools[2]}
    return {"real": dict(w, words=words, fin=fin, fout=fout, path=path, tools=has, via=via),
            "tla": {"words": words, "dirs": sorted(PATHS) + ["..", ".", "w", "s/p/c.t"], "tests": w["tests"], "features": w["features"], "tools": has,
                    "walks": dict(w["walks"], nowhere=[]),
                    "env": {"in": fin, "out": fout, "path": ["d0"] if path else []},
                    "paths": {k: {"tests": t, "suites": s} for k, (t, s) in PATHS.items()}}}


SCRIPT = {"ok": "echo OUT && echo '%s,' >> log", "fails": "echo OUT; echo '%s,' >> log; exit 3", "slow": "echo OUT; echo '%s,' >> log; sleep 9",
          "tool": "echo OUT; y=$(tool); z=$?; echo \"%s,${y:-none}\" >> log; exit $z"}


def read(out):
    """what was printed while tests ran, which groups, and whose output"""
    tests, groups, output, now = [], [], [], None
    for l in out.split("\n"):
        m, g = L.STATUS.match(l), GROUP.match(l)
        if m:
            now = m.group(2)
            tests.append([now, m.group(1)])
        elif g:
            now = None
            groups.append(LABELS.get(g.group(1), g.group(1)))
        elif now and l.strip() == "OUT":
            output.append(now)
    return tests, groups, output


def suites_of(out):
    res, part = [], ""
    for l in out.split("\n"):
        m = re.match(r"^  \* (.+) - (\d+) tests$", l)
        if m:
            res.append({"name": m.group(1), "count": int(m.group(2)), "features": []})
        elif re.match(r"^    \S.*:", l):
            part = l.strip()
        elif part == "Available Features:" and res and l.startswith("        - "):
            res[-1]["features"].append(l[10:])
    return res


def run_calls(part):
    with L.World() as w:
        for n in ("lit", "litcheck"):
            os.symlink(harness.LBIN, w.path("bin/" + n))
        base = harness.run_env()
        for k in ("LIT_FILTER", "LIT_FILTER_OUT"):
            base.pop(k, None)

        def one(ic):
            i, c = ic
            r = c["real"]
            at = "c%d" % i
            for t, f in zip(r["tests"], FILES):
                w.write(at + "/" + f, ("# REQUIRES: %s\n" % t["needs"][0] if t["needs"] else "") + "# RUN: " + SCRIPT[t["does"]] % t["name"] + "\n")
            for s in "su":
                w.write("%s/%s/lit.suite.toml" % (at, s), L.suite_toml(s, "../w", features=r["features"][s],
                        env=[("PATH", ":".join([w.path(at, d) for d in r["walks"][s]] + [base["PATH"]]))] if s in r["walks"] else ()))
            for d in ("w", "e", "d3", "tmp"):
                os.makedirs(w.path(at, d))
            for d, k in r["tools"].items():
                w.write("%s/%s/tool" % (at, d), "#!/bin/sh\necho %s\nexit %d\n" % (k, k == "bad"), 0o755)
            e = dict(base, TMPDIR=w.path(at, "tmp"))
            if r["fin"]:
                e["LIT_FILTER"] = r["fin"]
            if r["fout"]:
                e["LIT_FILTER_OUT"] = r["fout"]
            if r["path"]:
                e["PATH"] = w.path(at, "d0") + ":" + e["PATH"]
            v = r["via"].split()
            p = harness.spawn([w.path("bin", v[0])] + v[1:] + r["words"], cwd=w.path(at), env=e, stdin=subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            try:
                out, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                return {"verdict": "hangs"}
            out, err = out.decode(errors="replace"), err.decode(errors="replace")
            log = w.path(at, "w/log")
            ran = [l.split(",") for l in open(log).read().split()] if os.path.exists(log) else []
            tests, groups, output = read(out)
            listed = re.findall(r"^  (\S+) \(format=", out, re.M)
            o = {"ran": ran, "tests": tests or [[x, ""] for x in listed], "printed": groups, "output": output,
                 "suites": suites_of(out) if "-- Test Suites --" in out else [], "msg": (out + err)[-300:]}
            over = "Total Discovered Tests:" in out
            told = out.startswith("-- ")
            twice = len({tuple(x) for x in ran}) < len(ran) or len({x[0] for x in o["tests"]}) < len(o["tests"]) or len(set(groups)) < len(groups)
            rc = p.returncode
            o["verdict"] = ("twice" if twice else "crashed" if rc < 0 or rc == 101 else
                            ("passed" if over else "told" if told else "helped") if rc == 0 else "failed" if over else "refused")
            return o
        with ThreadPoolExecutor(12) as ex:
            return list(ex.map(one, enumerate(part)))


def describe(c, o, a):
    r = c["real"]
    return ("lit called this way does not do as specified\n  %s %s\n  LIT_FILTER=%r LIT_FILTER_OUT=%r\n  tests: %s\n  features: %s\n  PATH of suites: %s\n  real: %s\n  specified: %s"
            % (r["via"], r["words"], r["fin"], r["fout"], r["tests"], r["features"], r["walks"], {k: v for k, v in o.items()}, a))


def judge(ctx, name, cases, **extra):
    val.validate(ctx, name, "LitCallVal", "", cases, describe, run=run_calls, chunk=2500,
                 obsf=lambda o, c: {k: o.get(k, []) for k in ("verdict", "ran", "tests", "printed", "output", "suites")}, **extra)


TRIPLES = ["x86_64-unknown-linux-gnu", "x86_64-apple-darwin", "aarch64-apple-darwin", "aarch64-unknown-linux-gnu", "i686-unknown-linux-gnu",
           "armv7-unknown-linux-gnueabihf", "wasm32-unknown-unknown", "x86_64-unknown-linux-musl"]
FILTERS = ["a", "^s", "t$", "s::a.t", "zz", "b.t", "^u", "c", "^a", "p/", "d.t$", ".", "A"]
ITEMS = ([["-q"], ["--quiet"], ["-v"], ["--verbose"], ["-a"], ["--show-all"], ["-qv"], ["-va"], ["--no-execute"],
          ["-j", "1"], ["-j2"], ["-j=3"], ["--workers", "4"], ["--workers=1"], ["-vj2"], ["-D", "X=1"], ["-DX=a"], ["--param=Y=2"], ["--param", "Z="],
          ["--path", "d1"], ["--path=d2"], ["--path", "d3"], ["--path=d2", "--path=d1"], ["--path", "d1", "--path", "d2"],
          ["--timeout", "0"], ["--timeout=60"], ["--filter", "a"], ["--filter=^u"], ["--filter-out", "a"], ["--filter-out=s::"], ["--filter="],
          ["--filter", "zz"], ["--target", "aarch64-apple-darwin"], ["--target=x86_64-apple-darwin"], ["--target=i686-unknown-linux-gnu"]])
LISTS = [["--filter", "a"], ["--filter=^u"], ["--filter-out", "a"], ["--filter-out=s::"], ["--filter=b.t"], ["--filter-out=t$"]]
BAD = [["--nope"], ["-x"], ["-qx"], ["--quiet=true"], ["-j"], ["-jx"], ["--workers=-1"], ["--workers", "two"], ["--timeout=1s"], ["--timeout", "-1"], ["-D"], ["-D", "X"],
       ["--param=1X=2"], ["--path"], ["--path=nope"], ["--filter=a("], ["--filter-out", "*"], ["--target=nope"], ["--target"], ["--help"], ["-h"], ["--version"],
       ["-q", "-q"], ["--timeout=0", "--timeout=0"], ["--filter=a", "--filter=b"], ["n"], ["s/zz.t"], [".."], [""], ["--"], ["--", "-q"], ["--qui"]]
HOW = [["s"], ["u"], ["s", "u"], ["s/a.t"], ["s/p"], ["s/a.t", "s"], ["u/e.t", "s/b.t"], ["./s", "u"], ["s/", "s"], ["e"], ["e", "s"]]
VIA = ["lit", "litcheck lit"]
STARTS = [["run"], ["run"], [], ["show-tests"], ["show-suites"]]


def flat(xs):
    return [x for xs_ in xs for x in xs_]


def put(r, start, items, paths):
    """command, then options and paths in some order, the paths in theirs"""
    n = r.randint(0, len(items))
    return start + flat(items[:n]) + paths + flat(items[n:])


def environment(r):
    return {"fin": r.choice(FILTERS) if r.random() < 0.25 else "", "fout": r.choice(FILTERS[:8]) if r.random() < 0.2 else "", "path": r.random() < 0.5,
            "tools": (r.choice(["good", "bad"]), r.choice(["good", "bad"]), r.choice(["good", "bad"])), "via": r.choice(VIA)}


def every_pair(ctx):
    r = ctx.rnd("pairs")
    cs = []
    for start in (["run"], [], ["show-tests"], ["show-suites"]):
        items = ITEMS + BAD if start in (["run"], []) else LISTS + BAD + ITEMS[:3]
        for x, y in itertools.combinations_with_replacement(items, 2):
            p = 0.35 if start else 0.12
            if not ctx.thorough and r.random() > (p if x in BAD or y in BAD else 3 * p):
                continue
            if x in BAD and y in BAD and r.random() < 0.8:
                continue
            z = [x, y]
            r.shuffle(z)
            cs.append(case(put(r, start, z, r.choice(HOW)), world(r), **environment(r)))
    judge(ctx, "every two options, with each command, on worlds picked at random", cs, vocabulary=len(ITEMS + BAD))


def random_calls(ctx):
    r = ctx.rnd("calls")
    cs = []
    for _ in range(20000 if ctx.thorough else 1500):
        start = r.choice(STARTS)
        pool = ITEMS if start in ([], ["run"]) else LISTS
        items = [r.choice(BAD if r.random() < 0.04 else pool) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        if start == ["run"] and r.random() < 0.4:
            items.append(["--target", r.choice(TRIPLES)])
        if r.random() < 0.3:
            items.append([r.choice(["--filter", "--filter-out"]), r.choice(FILTERS)])
        paths = r.choice(HOW) if r.random() < 0.7 else [r.choice(sorted(PATHS)) for _ in range(r.randint(1, 3))]
        cs.append(case(put(r, start, items, paths), world(r), **environment(r)))
    judge(ctx, "random calls", cs)


def words_at_random(ctx):
    r = ctx.rnd("words")
    vocab = sorted(set(flat(ITEMS + BAD))) + ["run", "show-tests", "help", "s", "u", "s", "d1", "a", "2"]
    cs = []
    for _ in range(20000 if ctx.thorough else 900):
        ws = r.choice(STARTS + [["help"]]) + [r.choice(vocab) for _ in range(r.randint(0, 3))]
        if r.random() < 0.8:
            ws.insert(r.randint(min(1, len(ws)), len(ws)), r.choice(["s", "u"]))
        cs.append(case(ws, world(r), **environment(r)))
    judge(ctx, "random words", cs)


def limits(ctx):
    r = ctx.rnd("limits")
    cs = []
    for n in range(96 if ctx.thorough else 24):
        t = ["--timeout=4", "--timeout=4", "--timeout", "--timeout=0", "--timeout=60"][n % 5]
        items = [[t] if t != "--timeout" else [t, "4"]] + r.choice([[], [["-q"]], [["-v"]], [["-j1"]]])
        cs.append(case(put(r, r.choice([["run"], []]), items, ["s", "u"]), world(r, slow=True), **dict(environment(r), fin="", fout="")))
    judge(ctx, "tests that take longer than the limit", cs)


def model(ctx):
    val.model(ctx, "every reading of every short list of words", "LitCallMC", cfg="LitCallMCT.cfg" if ctx.thorough else None)


CHECKS = {"L10": [model, every_pair, random_calls, words_at_random, limits]}
NEED_BINARY = {"L10"}


def about(i):
    return ("a TLA+ specification of how lit reads its words and its environment, what it runs, and what it shows of that (LitCall.tla), checked with TLC; "
            "real calls of the binary on small suites are validated against it with TLC",
            "pairs of options out of a vocabulary, sampled (seeded) in the quick tier and exhaustive in the thorough one; worlds of five tests; filters made of letters, "
            "dots and anchors; a configuration parameter (--param) is only read, as lit has no use for it")
