"""Checks of the properties about the text of check files: F10 (which lines are directives), F11 (patterns)."""
import itertools
import fcval, gen_text, val
from gen_text import text_case
from checks_fc import describe, brief, report


def validate(ctx, name, cases, chunk=3000, **extra):
    skipped = 0
    for i in range(0, len(cases), chunk):
        rej, r, obs = fcval.validate(cases[i:i + chunk], module="CheckTextVal")
        ctx.tlc(r)
        ctx.traces += len(obs) - r.skipped
        skipped += r.skipped
        report(ctx, rej)
        if i == 0:
            for c, o in list(zip(cases, obs))[::max(1, len(obs) // 3)][:3]:
                ctx.sample({"checks": c["real"]["check"], "input": c["real"]["input"],
                            "options": c["real"]["args"], "real": brief(o)})
    ctx.parts.append(dict({"part": name, "cases": len(cases), "outside_of_the_specified_language": skipped}, **extra))


def random_runs(fam, quick, thorough):
    def go(ctx):
        validate(ctx, "random check files of family %s recorded and validated" % fam,
                 gen_text.cases(fam, ctx.rnd("text"), thorough if ctx.thorough else quick))
    return go


# Every check file that is a sequence of at most n of these tokens
LEX = [
    (["CHECK", "-NOT", ":", " ", "a", "\n", "x", "{LITERAL}"], 4, 5, ["a", "x\na"], {}),
    (["CHECK:a", "-CHECK", "CHECK-NEXT:b", "\n", " ", "\t", "//"], 4, 5, ["a\nb", "a b"], {}),
    (["A", "AB", ":", "-SAME:", "b", "\n", "COM:", " "], 4, 5, ["b", "bb"], {"prefixes": ["A", "AB"], "allowunused": True}),
    (["CHECK", "-COUNT-", "2", "0", ":a", "-EMPTY:", "\n"], 4, 5, ["aa", "a\n\n"], {}),
]
PAT = [
    (["a", "b", ".", "(", ")", "|", "*", "[", "]", "\\", "^", "{{", "}}"], 3, 4, ["ab", "(a*", "."], {}),
    (["{{a|b}}", "{{", "}}", "a", "|", "(", ")", "b", "+", "[[", "]]"], 4, 5, ["ab", "ba(b"], {}),
    (["[[X:", "[[X]]", "]]", "a", "[^a]", "]", "[", "+"], 4, 5, ["aa", "ab", "[a]]"], {}),
    (["A", "b", "{{[a-b]}}", " ", "\t", "{{ }}"], 4, 5, ["aB", "a  b", "\t"], {"icase": True}),
    (["A", "b", "{{[a-b]}}", " ", "\t", "{{ }}"], 4, 5, ["Ab", "b  b", "\t"], {"strict": True}),
]

NUM = [(["X", "5", "+", "-", "(", ")", ",", "add", "min", ":", "==", "%d,", "%x,", "%#X,", "%.3u,", "@LINE", " ", "0x1f"], 3, 4, ["<5>", "<2>", "<31>"], {}),
       (["X", "1", "-", "@LINE", " ", ":", "+", "%"], 3, 4, ["<2>", "<3>"], {})]
BLOCK = ["CHECK: {{x=}}[[#X:]];\nCHECK: <[[#%s]]>\n", "CHECK: {{x=}}[[#X:]];\nCHECK: <[[%s]]>\n"]


def texts(us, wrap, thorough, before=""):
    for toks, q, t, inputs, opt in us:
        seen = set()
        for n in range(1, (t if thorough else q) + 1):
            for seq in itertools.product(toks, repeat=n):
                s = "".join(seq)
                if s in seen:
                    continue
                seen.add(s)
                for i in inputs:
                    yield text_case(wrap % s, before + i, **opt)


def every(us, *wraps, before=""):
    def go(ctx):
        cs = [c for i, w in enumerate(wraps) for c in texts(us[i::len(wraps)], w, ctx.thorough, before)]
        validate(ctx, "every check file of a bounded universe recorded and validated", cs, chunk=6000, exhaustive=True,
                 universes=[{"tokens": u[0], "length": u[2] if ctx.thorough else u[1], "inputs": u[3], "options": u[4]} for u in us])
    return go


def faulty(ctx, name, cases, **extra):
    """What the errors about check files that cannot be used point at"""
    cases = [dict(c, real=dict(c["real"], report=True)) for c in cases]
    val.validate(ctx, name, "CheckFaultVal", "fc", cases,
                 lambda c, o, a: "the error about %r with %r does not point at what is wrong: %s" % (c["real"]["check"], c["real"]["args"], " ".join(o.get("texts", []))[:600]),
                 obsf=fcval.faults, **extra)


def faulty_every(us, *wraps, before=""):
    def go(ctx):
        cs = [c for i, w in enumerate(wraps) for c in texts(us[i::len(wraps)], w, ctx.thorough, before)]
        faulty(ctx, "errors about every check file of a bounded universe", cs, exhaustive=True,
               universes=[{"tokens": u[0], "length": u[2] if ctx.thorough else u[1], "options": u[4]} for u in us])
    return go


def faulty_random(fam, quick, thorough):
    def go(ctx):
        faulty(ctx, "errors about random check files of family %s" % fam,
               gen_text.cases(fam, ctx.rnd("faulty" + fam), thorough if ctx.thorough else quick))
    return go


def one_input(us):
    """Whether a check file can be used does not depend on the input"""
    return [(u[0], u[1], u[2], ["a"], u[4]) for u in us]


CHECKS = {
    "F17": [faulty_every(one_input(LEX), "%s"), faulty_every(one_input(PAT), "CHECK: %s\n"),
            faulty_every(one_input(NUM), *BLOCK, before="x=5;\n"),
            faulty_random("F17", 4000, 60000), faulty_random("F10", 3000, 60000), faulty_random("F11", 3000, 60000),
            faulty_random("F09", 3000, 60000), faulty_random("F13", 3000, 60000)],
    "F10": [every(LEX, "%s"), random_runs("F10", 3000, 60000)],
    "F11": [every(PAT, "CHECK: %s\n"), random_runs("F11", 3000, 60000)],
}
NEED_BINARY = set()


def add_to(checks):
    """Parts of other modules' properties that are decided on texts"""
    checks["F13"].append(random_runs("F13", 4000, 60000))
    checks["F09"] += [every(NUM, *BLOCK, before="x=5;\n"), random_runs("F09", 3000, 40000)]


def about(i):
    return ("recorded runs of the real FileCheck on texts are validated against the specification, which reads the "
            "same texts", "exhaustive within bounded universes of texts, sampled (seeded) beyond them")
