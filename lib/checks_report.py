"""Checks of what lit shows of each test: L11."""
import itertools, json, os, re
import gen_lit, val
import lit as L
from gen_lit import Suite
from lit import cps

ANSI = re.compile("\x1b\\[[0-9;]*m")
HEAD = L.STATUS
DASHES = "-" * 28
BARE = re.compile("^[A-Za-z0-9_%+,\\-./: @\ue001-\ue004]*$")
MUCH = "z" * 200000


def case(suite, text, n, show="a", exe=False, limit=0, sub=""):
    c = gen_lit.case(suite, text, n, sub)
    c["real"].update(show=show, exe=exe, limit=limit)
    c["tla"].update(show=show, exe=exe)
    return c


def reports(out, names):
    """{name: [report, ...]}: what was printed, cut where the next report begins. Nothing may be left over."""
    res, lines, i, stray = {}, out.split("\n"), 0, []
    while i < len(lines):
        m = HEAD.match(lines[i])
        if not m or m.group(2) not in names:
            if lines[i].startswith("*" * 20) or lines[i].startswith("Total Discovered"):
                break
            stray += [lines[i]] if lines[i] else []
            i += 1
            continue
        r = {"status": m.group(1), "shown": False, "code": 0, "time": "", "out": "", "err": ""}
        res.setdefault(m.group(2), []).append(r)
        i += 1
        m = re.match(r"^Exit Code: (N/A|-?\d+)$", lines[i])
        if m:
            r["shown"], r["code"] = True, -1 if m.group(1) == "N/A" else int(m.group(1))
            i += 1
        m = re.match(r"^(Elapsed: (\d+ms|\d+\.\d\ds)|Timeout: Reached timeout after \d+s)$", lines[i])
        if m:
            r["shown"], r["time"] = True, m.group(1).split(":")[0].lower()
            i += 1
        for k, what in (("out", "stdout"), ("err", "stderr")):
            while i < len(lines) - 1 and not lines[i] and lines[i + 1] == "Command Output (%s) ----" % what:
                i += 1
            if lines[i] == "Command Output (%s) ----" % what:
                e = lines.index(DASHES, i) if DASHES in lines[i:] else len(lines)
                r[k] = "\n".join(lines[i + 1:e])
                i = e + 1
    return res, stray


def trace(l):
    l = l.replace("'", "")
    return l if BARE.match(l[1:]) else "+ ?"


def run_reports(part):
    got = [None] * len(part)
    runs = {}
    for i, c in enumerate(part):
        r = c["real"]
        runs.setdefault((r["noexec"], r["show"], r["limit"]), []).append(i)
    for (noexec, show, limit), ids in runs.items():
        groups = {}
        for i in ids:
            groups.setdefault((part[i]["suite"].key(), part[i]["real"]["exe"]), []).append(i)
        with L.World() as w:
            names = {}
            for g, ((_, exe), members) in enumerate(groups.items()):
                s = part[members[0]]["suite"]
                w.write("g%d/lit.suite.toml" % g, L.suite_toml(
                    "G%d" % g, "../work", features=s.features, subs=s.subs, extra="[format.executable]\n" if exe else "",
                    shtest={"extra": s.extra, "set": [("shell", s.shell)] if s.shell else []} if s.extra or s.shell else None))
                for i in members:
                    text = part[i]["real"]["text"]
                    w.write("g%d/%s" % (g, part[i]["real"]["rel"]), "#!/bin/sh\n%s\n" % text if exe else text, 0o755 if exe else None)
                    names[i] = ("G%d::%s" % (g, part[i]["real"]["rel"]), "g%d" % g)
            rc, out, err = w.run(["run", "-j", "8", "--path", "bin"] + (["--no-execute"] if noexec else []) + (["-" + show] if show else [])
                                 + (["--timeout", str(limit)] if limit else []) + ["g%d" % g for g in range(len(groups))])
            seen, stray = reports(ANSI.sub("", out) if "Command Output" not in out and "\x1b" in out else out, {n for n, _ in names.values()})
            for i in ids:
                r = part[i]["real"]
                name, d = names[i]
                rs = seen.get(name, [])
                o = dict(rs[0]) if len(rs) == 1 else {"status": "MISSING" if not rs else "TWICE", "shown": False, "code": 0, "time": "", "out": "", "err": ""}
                temp = re.compile(re.escape(w.path("work", os.path.dirname(r["rel"]), "")).replace("//", "/")
                                  + re.escape(os.path.basename(r["rel"])) + r"\.[A-Za-z0-9]+/" + re.escape(os.path.basename(r["rel"])) + r"\.tmp")

                def norm(x, traces):
                    x = temp.sub("\ue001", x).replace(w.path(d), "\ue002/\ue004").replace(L.LBIN, "\ue003").replace(MUCH, "\ue005")
                    if traces:
                        x = "\n".join(trace(l) if l.startswith("+ ") else l for l in x.split("\n"))
                    return x
                o["show"] = {"out": norm(o["out"], False), "err": norm(o["err"], not r["exe"])}
                o.update(out=cps(o["show"]["out"]), err=cps(o["show"]["err"]))
                if stray:
                    o["status"] += " with stray lines"
                got[i] = dict(o, verdict="ok", msg="exit %s\n%s\n%s" % (rc, err[-300:], "\n".join(stray)[:300]))
    return got


def describe(c, o, a):
    def text(cs):
        return "".join("        |%s\n" % l for l in "".join(map(chr, cs)).split("\n"))

    def rep(e):
        if not e["shown"]:
            return "    %s, no report\n" % e["status"]
        return "    %s, code %s, %s\n      output\n%s      errors\n%s" % (e["status"], "none" if e["code"] < 0 else e["code"], e["time"] or "not run", text(e["out"]), text(e["err"]))
    r = c["real"]
    return ("the report of a test is not what its specification says\n  -%s%s%s, features %s, substitutions %s\n  file %s%s:\n%s\n  real:\n%s%s  %s" % (
        r["show"], ", --no-execute" if r["noexec"] else "", ", limit %d" % r["limit"] if r["limit"] else "", r["features"], r["subs"], r["rel"],
        " (executable)" if r["exe"] else "", "\n".join("    |" + l for l in r["text"].split("\n")), rep(o),
        "  specified:\n" + rep(json.loads(a[0])) if a else "", o.get("msg", "")))


def validate(ctx, name, cases, **extra):
    val.validate(ctx, name, "LitReportVal", "", cases, describe, run=run_reports, chunk=3000,
                 obsf=lambda o, c: {k: o[k] for k in ("status", "shown", "code", "time", "out", "err")}, **extra)


F = Suite(["f"])
LINES = ["RUN: say o=a e=b\n", "RUN: say o-c =1 || say e=d ; r @ a 1_0\n", "RUN: say 'o-\\n\\c' 'e=it \\t' \\\n", "RUN: 'e=\\' 'ox0aff0d00'\n", "XFAIL: f\n",
         "RUN: false && say o=no ; say o=yes '=3'\n", "ALLOWED_RETRIES: 1\n", "RUN: say o=%% e=%s =k\n", "REQUIRES: f, !(f && g), g || h\n", "UNSUPPORTED: f && !g, f\n"]


def enumerated(ctx):
    cs = []
    for show, n in (("a", 3 if not ctx.thorough else 4), ("v", 2), ("", 1)):
        for k in range(n + 1):
            cs += [case(F, "".join(seq), len(cs) + i, show) for i, seq in enumerate(itertools.product(LINES, repeat=k))]
    for seq in itertools.chain.from_iterable(itertools.product(["say o=a e-b", "say oz ez", "say o- =2", "false", "exit 3", "say e=x =k", "true"], repeat=k) for k in (1, 2)):
        cs.append(case(F, " ; ".join(seq), len(cs), "a", exe=True))
    for i, c in enumerate(cs):
        assert c["real"]["test"] == "c%d" % i
    validate(ctx, "the reports of every test of a bounded universe", cs, exhaustive=True, universes=[{"lines": LINES, "length": 3}])


def random_tests(quick, thorough):
    def go(ctx):
        r = ctx.rnd("reports")
        texts = ["a", "x y", "", "\\n", "\\c", "\\0101", "\\\\", "%s", "%%", "%{v}", "$HOME", "*", "\"", "`x`", "# c", "a;b", "PASS: a", "é", "-n", "-e x", "--", "\t", "~", "!", "!!",
                 "Exit Code: 7", "RUN at line 1: x", "%(line)", "%t", "[31m", "Command Output", "----"]
        hexes = ["00", "0a", "0d0a", "ff", "fe41", "411b5b306d42", "0a0a", "07", "08", "7f", "f8ff"]
        cond = ["f", "!f", "g", "f && g", "!(f || g) && f", "h || !g", "{{f|g}}", "!!f", "f || g && h", "true", "*"]
        suites = [Suite(["f"]), Suite(["f", "g"], [("%{v}", "1 '\\n' 2")]), Suite([], [("%{v}", "\\\\")], shell="bash"), Suite(["f"], noexec=True)]

        def piece():
            k = r.random()
            q = r.choice("oe")
            if k < 0.55:
                return "'%s=%s'" % (q, r.choice(texts) if r.random() < 0.7 else r.choice(texts) + r.choice(texts))
            if k < 0.7:
                return "'o-%s'" % r.choice(texts)
            if k < 0.85:
                return "%sx%s" % (q, r.choice(hexes) + ("0a" if q == "e" else ""))
            return "oz" if k < 0.87 else "%s=%s" % (q, r.choice("abc"))

        def command():
            k = r.random()
            if k < 0.7:
                return " ".join(["say"] + [piece() for _ in range(r.choice([0, 1, 1, 2, 3]))] +
                                ([r.choice(["=0", "=1", "=1", "=7", "=99", "=k"])] if r.random() < 0.3 else []))
            return r.choice(["r @ a 1_0", "r @ b 0_1", "r @ c 1", "true", "false", "exit 0", "exit 5", "r @ d 2_1_3_0"])

        def line():
            c = command()
            while r.random() < 0.3:
                c += r.choice([" ; ", " && ", " || "]) + command()
            return c
        cs = []
        for _ in range(thorough if ctx.thorough else quick):
            show = r.choice("aaaav") if r.random() < 0.97 else ""
            if r.random() < 0.15:
                cs.append(case(F, line(), len(cs), show, exe=True))
                continue
            ls = []
            for _ in range(r.choice([1, 2, 3, 4, 6, 12])):
                k = r.random()
                if k < 0.8:
                    c = line()
                    if r.random() < 0.3:
                        ws = c.split(" ")
                        p = r.randrange(len(ws))
                        if "".join(ws[:p]).count("'") % 2 == 0:
                            c = " ".join(ws[:p]) + r.choice([" ", ""] if p else [""]) + "\\\n# RUN:" + r.choice([" ", "  ", ""]) + " ".join(ws[p:])
                    ls.append(r.choice(["# ", "// ", ""]) + "RUN: " + c)
                elif k < 0.86:
                    ls.append("XFAIL: " + r.choice(cond))
                elif k < 0.91:
                    ls.append("ALLOWED_RETRIES: %d" % r.choice([1, 2, 3]))
                elif k < 0.94:
                    ls.append(r.choice(["REQUIRES: ", "UNSUPPORTED: "]) + ", ".join(r.choice(cond) for _ in range(r.choice([1, 2, 3]))))
                elif k < 0.97:
                    ls.append(r.choice(["DEFINE: %{w} = 'e=\\n'", "", "text", "text"]))
                else:
                    ls.append(r.choice(["REQUIRES: &", "ALLOWED_RETRIES: x", "REDEFINE: %{u} = 1", "END.", "XFAIL: f &&"]))
            cs.append(case(r.choice(suites), "\n".join(ls) + "\n", len(cs), show, sub=r.choice(["", "", "a/b"])))
        validate(ctx, "the reports of random tests", cs)
    return go


def late(ctx):
    """Tests that do not end, in runs of their own: what they wrote before is shown"""
    cs = []
    for n, (body, exe) in enumerate([("RUN: say o=a e=b =h\n", 0), ("RUN: say o=a\nRUN: say e-b o-c =h\nRUN: say o=d\n", 0), ("RUN: say oz e=b =h || say o=c\nXFAIL: f\n", 0),
                                     ("RUN: r @ a 1_0 && say o=x =h\nALLOWED_RETRIES: 1\n", 0), ("say o=a e-b ; say =h", 1), ("say o-a =h", 1), ("RUN: say =h\n", 0)]):
        cs.append(case(F, body, n, "av"[n % 2], exe=bool(exe), limit=4))
    validate(ctx, "the reports of tests that take too long", cs)


def model(ctx):
    val.model(ctx, "every run of every bounded plan", "LitRunMC", cfg="LitRunMCT.cfg" if ctx.thorough else None)


CHECKS = {"L11": [model, enumerated, random_tests(1500, 20000), late]}
NEED_BINARY = {"L11"}


def about(i):
    return ("a TLA+ specification of the report of a test (LitReportVal.tla), on top of those of test files (ShScript.tla) and of the run of a "
            "test as a state machine (LitRun.tla, its invariants checked with TLC): what real litcheck shows of every test of a bounded "
            "universe, of random tests and of tests that take too long is validated against it with TLC",
            "the trace of a command is compared only where the shell has no reason to do more than put its words in quotes, and outputs to the errors end with the line; "
            "the times shown are not compared; why a test is unresolved is not specified, only that something is said")
