"""Checks of the properties about whole runs: L07, L08."""
import itertools, json, os, re, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import harness, lit, val

GROUP = re.compile(r"^\*{20} (.+) Tests \((\d+)\):$")
COUNT = re.compile(r"^  (.+?) *: *(\d+) \((\d+)\.(\d\d)%\)$")
TOTAL = re.compile(r"^Total Discovered Tests: (\d+)$")
ENDS = {"0": "PASS", "1": "FAIL", "k": "UNRESOLVED"}


def test(codes="w0", sel=True, retries=0, xfail=False, told=None, exe=False):
    """codes: of the attempts, one after the other, separated by _; told: how its status is known without running it"""
    return {"codes": codes, "sel": sel, "retries": 0 if exe else retries, "xfail": xfail and not exe, "told": told, "exe": exe}


def plan_of(code):
    if code[0] == "n":
        return {"5": "HELD", "6": "PASS"}.get(code[1:], "NEVER")
    return "PASS" if code[0] == "l" else ENDS.get(code[1:], "FAIL")


TOLD = {"unsupported": ("# UNSUPPORTED: f1\n# RUN: r %s s b0\n", "UNSUPPORTED"), "unmet": ("# REQUIRES: zz\n# RUN: r %s s b0\n", "UNSUPPORTED"),
        "empty": ("nothing for %s\n", "UNRESOLVED"), "bad": ("# RUN: r %s s b0\n# ALLOWED_RETRIES: many\n", "UNRESOLVED")}


def run_case(tests, workers=None, choices=(), led=True, quiet=False, all=False, verbose=False, limit=0, colon=False, filt="out", cpus=None):
    ts, real = [], []
    for n, t in enumerate(tests):
        name = "%s%02d" % ("t" if t["sel"] else "x", n)
        kind, told = "run", ""
        if t["told"]:
            kind, told = "told", TOLD[t["told"]][1]
        elif colon:
            kind, told = ("breaks", "") if t["exe"] else ("told", "UNRESOLVED")
        ts.append({"sel": t["sel"], "kind": kind, "told": told, "retries": t["retries"], "xfail": t["xfail"],
                   "plan": [plan_of(c) for c in t["codes"].split("_")]})
        real.append(dict(t, name=name, told=t["told"] or ""))
    return {"real": {"tests": real, "workers": workers, "choices": list(choices), "led": led, "quiet": quiet, "all": all, "verbose": verbose,
                     "limit": limit, "colon": colon, "filter": filt, "cpus": cpus},
            "tla": {"tests": ts, "workers": min(workers or cpus, max(1, len(ts))), "led": led and not colon, "quiet": quiet, "all": all, "limit": limit}}


def lay(w, r):
    w.write("s/lit.suite.toml", lit.suite_toml("S", "../work", features=["f1"]))
    w.write("e/lit.suite.toml", lit.suite_toml("E", "../work", features=["f1"], extra="[format.executable]\n"))
    for t in r["tests"]:
        n = t["name"]
        if t["exe"]:
            w.write("e/%s.t" % n, "#!/bin/sh\nr %s s %s\n" % (n, t["codes"]), 0o755)
            continue
        text = TOLD[t["told"]][0] % n if t["told"] else "# RUN: r %s s %s\n" % (n, t["codes"])
        if t["codes"] == "n9":
            text += "# RUN: r %s c q0\n" % n
        if t["retries"]:
            text += "# ALLOWED_RETRIES: %d\n" % t["retries"]
        if t["xfail"]:
            text += "# XFAIL: f1\n"
        w.write("s/%s.t" % n, text)
    os.mkdir(w.path("work/go"))
    if not r["led"]:
        w.write("work/go/all", "")


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read().decode(errors="replace")
    except FileNotFoundError:
        return ""


def events(w):
    text = read(w.path("work/events"))
    return [l.split(" ") for l in text[:text.rfind("\n") + 1].split("\n")[:-1]]


BAD = []   # runs that did not go on, after which there is less patience


def patience(s):
    return s if len(BAD) < 3 else min(s, 2)


def lead(w, r, c, alive):
    """Let attempts end one by one, the next one chosen only when as many are running as can"""
    tests = {t["name"]: t for t in r["tests"]}
    runnable = [t for t in r["tests"] if t["sel"] and not t["told"]]
    workers, released, retries, choices = c["tla"]["workers"], [], 0, list(r["choices"])
    while alive():
        want = min(len(runnable), workers + len(released) - retries) + retries
        stop = time.time() + patience(20)
        while True:
            begun = [(e[1], e[2]) for e in events(w) if e[0] == "B"]
            if len(begun) >= want:
                break
            if time.time() > stop or not alive():
                BAD.append(r)
                w.write("work/go/all", "")   # it does not go as specified, so the recorded events tell
                return
            time.sleep(0.001)
        waiting = sorted(b for b in begun if b not in released)
        if not waiting:
            break
        name, n = waiting[(choices.pop(0) if choices else 0) % len(waiting)]
        w.write("work/go/%s.%s" % (name, n), "")
        released.append((name, n))
        t = tests[name]
        codes = t["codes"].split("_")
        fails = codes[min(int(n), len(codes)) - 1] == "w1"
        again = fails and int(n) <= t["retries"]
        retries += again
        if not again and (r["all"] or not r["quiet"]):
            stop = time.time() + patience(5)
            while alive() and not re.search(r"(?m)^[A-Z]+: .::%s\.t$" % name, read(w.path("out"))) and time.time() < stop:
                time.sleep(0.001)
    if not alive() and len(released) < len(runnable):
        return


def gone(pid):
    """Whether the recorder with this number is not there any more"""
    try:
        s = open("/proc/%s/stat" % pid).read()
    except OSError:
        return True
    return s[s.index("(") + 1:s.rindex(")")] != "r" or s[s.rindex(")") + 2] in "ZX"


def one_run(c):
    r = c["real"]
    with lit.World() as w:
        lay(w, r)
        if r["colon"]:
            os.mkdir(w.path("c:d"))
        args = ["run", "--path", "c:d" if r["colon"] else "bin"] + (["-j", str(r["workers"])] if r["workers"] else [])
        args += (["--filter", "::t"] if r["filter"] == "in" else ["--filter-out", "::x"])
        args += [o for o, k in (("-q", "quiet"), ("-a", "all"), ("-v", "verbose")) if r[k]] + (["--timeout", str(r["limit"])] if r["limit"] else [])
        args += ["s"] + (["e"] if any(t["exe"] for t in r["tests"]) else [])
        e = harness.run_env()
        e["TMPDIR"] = w.path("work")
        e["RECORDER_LOG"] = w.path("work/log")
        pre = (lambda: os.sched_setaffinity(0, r["cpus_of"])) if r.get("cpus_of") else None
        with open(w.path("out"), "wb") as out, open(w.path("err"), "wb") as err:
            p = harness.spawn([harness.LBIN, "lit"] + args, cwd=w.dir, env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=err,
                                 start_new_session=True, preexec_fn=pre)
        try:
            if r["led"]:
                lead(w, r, c, lambda: p.poll() is None)
            rc = p.wait(timeout=patience(60) + 5 * r["limit"])
        except subprocess.TimeoutExpired:
            rc = None
            BAD.append(r)
        ev = events(w)
        left, stop = [], time.time() + patience(5)
        never = {t["name"] for t in r["tests"] if plan_of(t["codes"]) == "NEVER"}
        procs = [(x[1], x[2]) for x in ev if x[0] == "P"]
        while True:
            left = [(t, pid) for t, pid in procs if not gone(pid)]
            if not any(t in never for t, _ in left) or time.time() > stop:
                break
            time.sleep(0.01)
        for _, pid in left:
            try:
                os.kill(int(pid), signal.SIGKILL)
            except OSError:
                pass
        if rc is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        text = read(w.path("out"))
        index = {"%s::%s.t" % ("E" if t["exe"] else "S", t["name"]): i + 1 for i, t in enumerate(r["tests"])}
        short = {t["name"]: i + 1 for i, t in enumerate(r["tests"])}
        o = {"verdict": "hang" if rc is None else "ok", "code": rc, "lines": [], "groups": [], "total": -1, "counts": [], "stray": 0,
             "left": sum(t in never for t, _ in left), "events": [{"k": x[0], "t": short.get(x[1], 0)} for x in ev if x[0] in "BE"],
             "msg": "%s\n%s" % (text[-1500:], read(w.path("err"))[-500:])}
        group = None
        for l in text.split("\n"):
            m = lit.STATUS.match(l)
            g, k, n = GROUP.match(l), COUNT.match(l), TOTAL.match(l)
            if m:
                if m.group(2) in index:
                    o["lines"].append({"s": m.group(1), "t": index[m.group(2)]})
                else:
                    o["stray"] += 1
            elif g:
                group = {"label": g.group(1), "count": int(g.group(2)), "tests": []}
                o["groups"].append(group)
            elif group is not None and l.startswith("  "):
                group["tests"].append(index.get(l[2:], 0))
            elif k:
                o["counts"].append({"label": k.group(1), "count": int(k.group(2)), "pct": int(k.group(3) + k.group(4))})
            elif n:
                o["total"] = int(n.group(1))
            if not l.startswith("  "):
                group = group if g else None
        return o


def run_cases(threads):
    def go(part):
        with ThreadPoolExecutor(threads) as ex:
            return list(ex.map(one_run, part))
    return go


def describe(c, o, a):
    r = c["real"]
    names = [""] + [t["name"] for t in r["tests"]]
    n = lambda x: names[x] if isinstance(x, int) and 0 < x < len(names) else str(x)
    return ("a run is not one of those specified\n  %s\n%s\n  real: exit %s, events %s\n    lines %s\n    groups %s\n    counts %s of %s, %s processes left\n"
            "  specified: %s\n%s" % (
                ", ".join("%s %s" % (k, v) for k, v in r.items() if k != "tests"),
                "\n".join("    %s: %s" % (t["name"], ", ".join("%s %s" % (k, v) for k, v in t.items() if k != "name" and v)) for t in r["tests"]),
                o.get("code"), " ".join(e["k"] + n(e["t"]) for e in o.get("events", [])), " ".join(l["s"] + ":" + n(l["t"]) for l in o.get("lines", [])),
                [(g["label"], g["count"], [n(t) for t in g["tests"]]) for g in o.get("groups", [])],
                [(k["label"], k["count"], k["pct"]) for k in o.get("counts", [])], o.get("total"), o.get("left"), str(a)[:800], o.get("msg", "")[-1200:]))


def validate(ctx, name, cases, threads=8, **extra):
    for c in cases:
        c["tla"]["events"] = []
    obs = lambda o, c: {k: o[k] for k in ("code", "lines", "groups", "total", "counts", "stray", "left")}

    def run(part):
        got = run_cases(threads)(part)
        # ended too early, or was this machine too slow?
        for k, c in enumerate(part):
            late = {i + 1 for i, t in enumerate(c["tla"]["tests"]) if not {"NEVER", "HELD"} & set(t["plan"])}
            if any(l["s"] == "TIMEOUT" and l["t"] in late for l in got[k]["lines"]):
                again = dict(c, real=dict(c["real"], limit=4 * c["real"]["limit"]))
                got[k] = one_run(again)
        for c, o in zip(part, got):
            c["tla"]["events"] = o["events"]
        return got
    val.validate(ctx, name, "RunVal", "", cases, describe, run=run, obsf=obs, chunk=3000, **extra)


# ---------------------------------------------------------------- L07
KINDS = [dict(codes="w0"), dict(codes="w1"), dict(codes="wk"), dict(codes="w0", xfail=True), dict(codes="w1", xfail=True), dict(codes="w1_w0", retries=1),
         dict(codes="w1_w1_w0", retries=2), dict(codes="w1_w1", retries=1, xfail=True), dict(codes="w1_w0", retries=3, xfail=True),
         dict(codes="w0", exe=True), dict(codes="w1", exe=True), dict(codes="wk", exe=True), dict(sel=False), dict(told="unsupported"), dict(told="unmet"),
         dict(told="empty"), dict(told="bad"), dict(codes="w1", sel=False), dict(sel=False, exe=True)]
VIEWS = [{}, {}, {"quiet": True}, {"all": True}, {"verbose": True}, {"quiet": True, "all": True}, {"quiet": True, "verbose": True}]


def orders(n, w):
    """every order in which n tests can end with w workers, as choices among those running"""
    return itertools.product(*[range(min(w, n - i)) for i in range(n)])


def led_every(ctx):
    r = ctx.rnd("led")
    cs = []
    for n in range(1, 6 if ctx.thorough else 5):
        for w in range(1, n + 1):
            for k, o in enumerate(orders(n, w)):
                for _ in range(3):
                    ts = [test(**r.choice(KINDS[:9])) if i % 3 else test("w%d" % (r.random() < 0.4)) for i in range(n)]
                    r.shuffle(ts)
                    cs.append(run_case(ts, w, list(o) + [r.randrange(5) for _ in range(6)], **r.choice(VIEWS)))
    validate(ctx, "every order in which up to %d tests can end with every number of workers, led step by step" % (5 if ctx.thorough else 4), cs, threads=16)


def led_random(ctx):
    r = ctx.rnd("led random")
    cs = []
    for _ in range(4000 if ctx.thorough else 220):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        pool = KINDS if r.random() < 0.7 else r.sample(KINDS, 3)
        if r.random() < 0.2:
            pool = [k for k in KINDS if not k.get("sel", True) or k.get("told") in ("unsupported", "unmet") or k.get("codes") == "w0"]
        cs.append(run_case([test(**r.choice(pool)) for _ in range(n)], r.choice([1, 2, 2, 3, 3, 4, 8]),
                           [r.randrange(12) for _ in range(24)], filt=r.choice(["in", "out"]), **r.choice(VIEWS)))
    validate(ctx, "random tests and orders, led step by step", cs, threads=16)


def free(ctx):
    r = ctx.rnd("free")
    cs = []
    for _ in range(600 if ctx.thorough else 40):
        n = r.choice([10, 20, 30, 50, 80])
        ks = [dict(k, codes=k["codes"].replace("w", "b")) if "codes" in k else dict(k, codes="b0") for k in KINDS]
        cs.append(run_case([test(**r.choice(ks)) for _ in range(n)], r.choice([1, 2, 3, 5, 8, 16, 40]), led=False,
                           filt=r.choice(["in", "out"]), **r.choice(VIEWS)))
    validate(ctx, "runs of many tests left to themselves", cs, threads=4)


def broken(ctx):
    """Executables that cannot be run end the run"""
    r = ctx.rnd("broken")
    cs = []
    for _ in range(600 if ctx.thorough else 60):
        n = r.choice([1, 2, 3, 5, 8, 12])
        ks = [dict(k, codes="b0") for k in (dict(exe=True), dict(), dict(told="unsupported"), dict(told="unmet"), dict(sel=False), dict(sel=False, exe=True))]
        cs.append(run_case([test(**r.choice(ks)) for _ in range(n)], r.choice([1, 2, 3, 8]), led=False, colon=True, filt=r.choice(["in", "out"]),
                           **r.choice([{}, {"all": True}, {"verbose": True}])))
    validate(ctx, "runs that are given up", cs)


def by_cpus(ctx):
    """Without a number of workers there are as many as CPUs"""
    cpus = sorted(os.sched_getaffinity(0))
    cs = []
    for n in (1, 2, 3, 4):
        if n <= len(cpus):
            c = run_case([test("l150") for _ in range(n + 3)], None, led=False, cpus=n)
            c["real"]["cpus_of"] = cpus[:n]
            cs.append(c)
    validate(ctx, "at most as many at a time as CPUs", cs, threads=1)


def run_model(cfg):
    def go(ctx):
        val.model(ctx, "every run of every small pool of tests", "RunMC", cfg="RunMCT.cfg" if ctx.thorough else cfg, timeout=3600)
    return go


# ---------------------------------------------------------------- L08
HANGS = [dict(codes="n0"), dict(codes="n1"), dict(codes="n2"), dict(codes="n3"), dict(codes="n9"), dict(codes="n0", xfail=True), dict(codes="n0", retries=2),
         dict(codes="n0", exe=True), dict(codes="n1", exe=True), dict(codes="n2", exe=True), dict(codes="n3", exe=True), dict(codes="b1_n0", retries=2)]
TIMELY = [dict(codes="b0"), dict(codes="b1"), dict(codes="o0"), dict(codes="o1"), dict(codes="l700"), dict(codes="b1_b0", retries=1), dict(codes="b1", xfail=True),
          dict(codes="bk"), dict(codes="b0", exe=True), dict(codes="b1", exe=True), dict(codes="o0", exe=True), dict(told="unsupported"), dict(told="empty"),
          dict(sel=False), dict(codes="n6"), dict(codes="l700", exe=True)]


def limits(ctx):
    r = ctx.rnd("limits")
    cs = [run_case([test(**k) for k in HANGS + TIMELY + [dict(codes="n5"), dict(codes="n5", exe=True), dict(codes="l2500"), dict(codes="l2500", exe=True)]], 64, led=False, limit=4)]
    for _ in range(60 if ctx.thorough else 8):
        n = r.choice([1, 2, 4, 8])
        ts = [test(**r.choice(HANGS)) for _ in range(n)] + [test(**r.choice(TIMELY)) for _ in range(r.choice([2, 6, 12]))]
        r.shuffle(ts)
        cs.append(run_case(ts, r.choice([2, 3, 4, 8]) if n <= 4 else 16, led=False, limit=r.choice([3, 4, 5]), filt=r.choice(["in", "out"]), **r.choice(VIEWS)))
    for _ in range(20 if ctx.thorough else 4):   # all end in time
        cs.append(run_case([test(**r.choice(TIMELY)) for _ in range(12)], r.choice([2, 8]), led=False, limit=r.choice([6, 9]), **r.choice(VIEWS)))
    validate(ctx, "runs with a time limit, of tests that never end among others", cs, threads=6)


CHECKS = {"L07": [run_model("RunMC7.cfg"), led_every, led_random, free, broken, by_cpus], "L08": [run_model(None), limits]}
NEED_BINARY = {"L07", "L08"}


def about(i):
    return {
        "L07": ("a TLA+ specification of workers taking tests from a queue and reporting them (Run.tla), checked with TLC; runs of the real command, led through every "
                "order in which few tests can end and left to themselves with many, are validated as behaviours of it with TLC, along with what they print and how they exit",
                "orders of up to 4 or 5 tests exhaustively; larger pools and more workers sampled; the number of workers 0 is left out"),
        "L08": ("a TLA+ specification of runs with a time limit (Run.tla, RunMC.tla), checked with TLC over discrete time; runs of the real command with tests that never "
                "end, in every way the recorder knows, are validated as behaviours of it with TLC, along with the processes they leave",
                "limits of a few seconds; processes that leave the group of their test are not looked for"),
    }[i]
