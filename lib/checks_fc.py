"""Checks of the FileCheck properties F01 .. F13."""
import harness, fcval, gen_fc, gen_num, gen_struct, fcenum, fixed_fc
from fcase import *
from fcenum import universe, size

A, B, C, AB = lit("a"), lit("b"), lit("c"), lit("ab")
RXA = dict(A, _rx=1)
APLUS, ABSTAR = plus(cset("a")), star(cset("ab"))
BOL, EOL = bol(), eol()


def brief(o):
    return {k: o[k] for k in ("verdict", "m", "errs", "msg") if k in o}


def describe(c, o, allowed):
    return ("FileCheck does not do what its specification says\n  checks: %r\n  input: %r\n  options: %s\n"
            "  real: %s\n  specified: %s" % (c["real"]["check"], c["real"]["input"], c["real"]["args"],
                                            str(brief(o))[:400], str(allowed[:3])[:600]))


def describe_report(c, o, allowed):
    return ("the report of a failed run does not name the check that fails\n  checks: %r\n  input: %r\n  options: %s\n"
            "  named: %s\n  culprits: %s" % (c["real"]["check"], c["real"]["input"], c["real"]["args"],
                                            str(fcval.culprits(c, o))[:400], str(allowed[:3])[:400]))


def describe_shown(c, o, allowed):
    return ("what a failed run shows of the input is not what was searched and matched\n  checks: %r\n  input: %r\n  options: %s\n"
            "  shown: %s\n  specified: %s" % (c["real"]["check"], c["real"]["input"], c["real"]["args"],
                                              str(fcval.shown(c, o))[:900], str(allowed[:3])[:900]))


def report(ctx, rej, describe=describe):
    rej.sort(key=lambda t: len(t[0]["real"]["check"]) + len(t[0]["real"]["input"]))
    for c, o, a in rej:
        ctx.violation(describe(c, o, a), {"case": c["real"], "observed": brief(o), "specified": a})


def validate(ctx, name, cases, chunk=4000, blame=False, shown=False):
    how = dict(module="FileCheckReportVal", obsf=fcval.culprits, report=True) if blame else {}
    if shown:
        how = dict(module="FileCheckShownVal", obsf=fcval.shown, shown=True)
    for i in range(0, len(cases), chunk):
        rej, r, obs = fcval.validate(cases[i:i + chunk], **how)
        ctx.tlc(r)
        ctx.traces += len(obs)
        report(ctx, rej, describe_report if blame else describe_shown if shown else describe)
        if len(ctx.violations) > 20:
            break
        if i == 0:
            for c, o in list(zip(cases, obs))[:3]:
                ctx.sample({"checks": c["real"]["check"], "input": c["real"]["input"],
                            "options": c["real"]["args"], "real": brief(o)})
    ctx.parts.append({"part": name, "cases": len(cases)})


def random_runs(fam, quick, thorough):
    def go(ctx):
        n = thorough if ctx.thorough else quick
        validate(ctx, "random cases of family %s recorded and validated" % fam,
                 gen_fc.cases(fam, ctx.rnd("random"), n))
    return go


def structured(fam, quick, thorough, blame=False):
    """Every sequence of kinds of directives, with a text which satisfies it and each single edit of that text."""
    def go(ctx):
        for longest, n in thorough if ctx.thorough else quick:
            validate(ctx, "sequences of up to %d kinds of directives, with satisfying texts and single edits" % longest,
                     gen_struct.cases(fam, ctx.rnd("structured%d" % longest), n, longest), blame=blame)
    return go


def blamed(fams, quick, thorough):
    def go(ctx):
        n = thorough if ctx.thorough else quick
        cases = [x for f in fams for x in gen_fc.cases(f, ctx.rnd("random" + f), n)]
        validate(ctx, "reports of random cases recorded and validated", cases, blame=True)
    return go


def displayed(q, t):
    """Failing runs with longer inputs, and the options about what is shown"""
    def go(ctx):
        r = ctx.rnd("shown")
        cases = [x for f in ("F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F12", "F13") for x in gen_fc.cases(f, r, (t if ctx.thorough else q) // 12)]
        for longest, n in ((2, 1000), (3, q), (4, q // 2)):
            cases += gen_struct.cases("F15", r, n if not ctx.thorough else n * t // q, longest)
        for c in cases:
            k, inp = r.random(), c["real"]["input"]
            if k < 0.4:      # more lines, somewhere, around the number from which on only the ends are shown
                lines = inp.split("\n")
                p = r.randrange(len(lines))
                more = [r.choice(["~", "~~", ""]) for _ in range(r.choice([1, 6, 7, 8, 9, 10, 11, 12, 20, 100]))]
                inp = "\n".join(lines[:p] + more + lines[p:])
                c["real"]["input"], c["tla"]["in"] = inp, codes(inp)
            k = r.random()
            how = ["-vv"] if k < 0.2 else ["-v"] if k < 0.25 else ["--dump-input=never"] if k < 0.32 else ["--dump-input=fail"] if k < 0.36 else ["--dump-input=always"] if k < 0.4 else []
            c["real"]["args"] = list(c["real"]["args"]) + how
            c["tla"]["show"] = {"all": how == ["-vv"], "never": how == ["--dump-input=never"]}
        validate(ctx, "what failed runs show of their inputs recorded and validated", cases, shown=True)
    return go


def fixed(fam):
    def go(ctx):
        validate(ctx, "hand-written corner cases recorded and validated", fixed_fc.cases(fam))
    return go


def enumerated(quick, thorough):
    def go(ctx):
        us = thorough if ctx.thorough else quick
        r, n, rej, cases = fcenum.enumerate_and_replay(us, timeout=850 if not ctx.thorough else 7200)
        ctx.tlc(r)
        ctx.traces += n
        report(ctx, rej)
        for c in cases[:: max(1, n // 3)][:3]:
            ctx.sample({"checks": c["real"]["check"], "input": c["real"]["input"], "options": c["real"]["args"]})
        ctx.parts.append({"part": "all behaviours of bounded universes, replayed", "cases": n, "exhaustive": True,
                          "universes": [{"directives": [dir_text(d) for d in u["dirs"]],
                                         "per_check_file": [u["lo"], u["hi"]], "alphabet": u["chars"],
                                         "input_length": u["len"], "options": u["opts"], "cases": size(u)}
                                        for u in us]})
    return go


def probe(p):
    o = harness.run("fc", [p["case"]])[0]
    if o["verdict"] == p["right"]:
        return "fine"
    return "finding" if o["verdict"] == p["wrong"] else "%s: %s" % (o["verdict"], str(brief(o))[:300])


X, Y = "X", "Y"
U = universe
P = lambda *a: d("plain", *a)
N = lambda *a: d("next", *a)
SM = lambda *a: d("same", *a)
NO = lambda *a: d("not", *a)
DG = lambda *a: d("dag", *a)
LB = lambda *a: d("label", *a)
CT = lambda n, *a: d("count", *a, n=n)
E = d("empty")

ENUM = {
    "F01": ([U([P(A), P(B), P(AB), P(APLUS), P(B, opt(lit("a")))], (1, 3), "ab\n", 4),
             U([P(A), P(lit("B"))], (1, 2), "aB", 4, opts=({"icase": True},))],
            [U([P(A), P(B), P(AB), P(APLUS), P(B, opt(lit("a"))), P(EOL)], (1, 4), "ab\n", 4),
             U([P(A), P(lit("B")), P(rng("[a-b]", "ab"))], (1, 3), "aAB\n", 5, opts=({"icase": True}, {}))]),
    "F02": ([U([P(A), N(A), SM(A), E, N(B)], (1, 3), "ab\n", 4), U([P(A), E, N(A)], (2, 3), "a\n", 6)],
            [U([P(A), N(A), SM(A), E, N(B), SM(ABSTAR), LB(B)], (1, 3), "ab\n", 5), U([P(A), E, N(A), SM(A)], (1, 4), "a\n", 7)]),
    "F03": ([U([P(A), P(B), NO(A), NO(B)], (1, 4), "ab\n", 3), U([P(A), P(B), NO(C), N(A)], (2, 4), "abc\n", 3)],
            [U([P(A), P(B), NO(A), NO(B), NO(AB)], (1, 4), "ab\n", 4),
             U([P(A), NO(B), N(A), LB(A), DG(A), E], (1, 4), "ab\n", 4)]),
    "F04": ([U([DG(A), DG(B), DG(AB), DG(APLUS), P(A)], (1, 3), "ab", 5), U([DG(A), DG(B), NO(A), NO(B), P(B)], (2, 3), "ab\n", 4)],
            [U([DG(A), DG(B), DG(AB), DG(APLUS), P(A)], (1, 4), "ab", 5), U([DG(A), DG(B), NO(A), NO(B), P(B), N(A), LB(A)], (2, 4), "ab\n", 3)]),
    "F05": ([U([CT(1, A), CT(2, A), CT(3, A), CT(2, APLUS), P(B)], (1, 2), "ab\n", 5)],
            [U([CT(1, A), CT(2, A), CT(3, A), CT(2, AB), CT(2, APLUS), P(B), NO(A), LB(B)], (1, 3), "ab\n", 5)]),
    "F06": ([U([LB(A), LB(B), P(A), P(B), N(A)], (1, 3), "ab\n", 4), U([LB(A), P(B), NO(B)], (2, 4), "ab\n", 4)],
            [U([LB(A), LB(B), P(A), P(B), N(A), E, NO(B), DG(A)], (1, 3), "ab\n", 5), U([LB(A), P(B), NO(B), E], (2, 5), "ab\n", 4)]),
    "F07": ([U([P(sdef(X, plus(cset("ab")))), P(suse(X)), P(suse(X), C), P(sdef(X, cset("ab")), suse(X))], (1, 3), "abc", 4)],
            [U([P(sdef(X, plus(cset("ab")))), P(suse(X)), P(suse(X), C), P(sdef(X, cset("ab")), suse(X)), NO(suse(X)), DG(suse(X)),
                P(sdef(Y, rng("[a-b]", "ab")))], (1, 3), "abc\n", 4)]),
    "F08": ([U([P(sdef(X, cset("ab"))), P(suse(X)), P(sdef("$G", cset("ab"))), P(suse("$G")), LB(C)], (1, 4), "abc\n", 2,
               opts=({"scope": True}, {"scope": False})),
             U([P(sdef(X, cset("ab"))), P(suse(X)), LB(C)], (2, 5), "ab\nc", 3, opts=({"scope": True},), env={"X": ("s", "a")})],
            [U([P(sdef(X, cset("ab"))), P(suse(X)), P(sdef("$G", cset("ab"))), P(suse("$G")), LB(C)], (1, 4), "abc\n", 3,
               opts=({"scope": True}, {"scope": False})),
             U([P(sdef(X, cset("ab"))), P(suse(X)), LB(C)], (2, 6), "ab\nc", 4, opts=({"scope": True},), env={"X": ("s", "a")})]),
    "F12": ([U([P(A), P(C), N(A)], (1, 3), "abc\n", 4, imp=([B],)), U([P(A), DG(A), NO(C), LB(A)], (1, 3), "abc\n", 3, imp=([B],))],
            [U([P(A), P(C), N(A), CT(2, A)], (1, 3), "abc\n", 5, imp=([B],)),
             U([P(A), DG(A), DG(C), NO(C), LB(A)], (1, 4), "abc\n", 3, imp=([B],))]),
}
_num = lambda n, f=NOFMT, e=None: num(n, f, e)
ENUM["F09"] = (
    [U([P(num("N")), P(nuse(var("N"))), P(nuse(op("add", var("N"), cnst(1)))), P(num("M", NOFMT, op("add", var("N"), cnst(1))))],
       (1, 3), "01 ", 4),
     U([P(num("N", fmt("x"))), P(nuse(var("N"))), P(num("M", fmt("d"))), P(nuse(op("sub", var("M"), cnst(1))))], (1, 2), "1f-", 4)],
    [U([P(num("N")), P(nuse(var("N"))), P(nuse(op("add", var("N"), cnst(1)))), P(num("M", NOFMT, op("add", var("N"), cnst(1))))],
       (1, 3), "019 ", 4),
     U([P(num("N", fmt("x", 2))), P(nuse(var("N"))), P(num("M", fmt("d"))), P(nuse(op("sub", var("M"), cnst(1)))),
        P(nuse(op("sub", var("N"), cnst(1)), fmt("x", 0, False, "up")))], (1, 3), "1f-A", 3)])
ENUM["F13"] = (
    [U([P(A), N(A), SM(B), E, NO(A), DG(B), LB(A), CT(2, A)], (1, 2), "ab\n", 4, opts=({}, {"allowempty": True}))],
    [U([P(A), N(A), SM(B), E, NO(A), DG(B), LB(A), CT(2, A)], (1, 3), "ab\n", 4, opts=({}, {"allowempty": True}))])

CHECKS, NEED_BINARY = {}, set()
for _f, (_q, _t) in ENUM.items():
    CHECKS[_f] = ([fixed(_f)] if fixed_fc.cases(_f) else []) + [enumerated(_q, _t), random_runs(_f, 3000, 40000)]
for _f in gen_struct.FOCUS:
    if _f in CHECKS:
        CHECKS[_f].append(structured(_f, [(3, 2500), (4, 1500)], [(3, 20000), (4, 60000)]))
CHECKS["F09"].append(lambda ctx: validate(ctx, "pairs of formats, and what is computed of two values in them",
                                          gen_num.cases(ctx.rnd("formats"), 60000 if ctx.thorough else 6000)))
CHECKS["F15"] = [structured("F15", [(3, 6000), (4, 4000)], [(3, 20000), (4, 100000)], blame=True),
                 blamed(["F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F12", "F13"], 700, 8000)]
CHECKS["F16"] = [displayed(6000, 80000)]


def about(i):
    if i == "F16":
        return ("a TLA+ specification of where each check is looked for and of what is marked (FileCheckShown.tla) on top of that of FileCheck; "
                "what real failed runs show is validated against it with TLC",
                "sampled (seeded); what is said of repeated checks that do not match often enough, and of checks after the first that fails, is not specified")
    return ("behaviours enumerated from the specification are replayed in the real FileCheck, and recorded real "
            "runs are validated against it",
            "exhaustive within the bounded universes, sampled (seeded) beyond them")
