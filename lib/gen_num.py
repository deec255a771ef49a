"""Numeric cases over pairs of formats: two values of different formats, and what is computed of them."""
from fcase import *

FORMATS = [NOFMT, fmt("u"), fmt("u", 3), fmt("d"), fmt("d", 2), fmt("x"), fmt("x", 4), fmt("x", 0, True), fmt("x", 3, True),
           fmt("x", 0, False, "up"), fmt("x", 2, False, "up"), fmt("x", 2, True, "up")]
OVER = [NOFMT, NOFMT, NOFMT, fmt("u", 2), fmt("d"), fmt("d", 3), fmt("x"), fmt("x", 3), fmt("x", 2, True), fmt("x", 2, False, "up")]
VALUES = [0, 1, 5, 10, 11, 31, 99, 171, 255, 1000, 4095]
EXPRS = [lambda a, b: (op("add", var("A"), var("B")), a + b), lambda a, b: (op("sub", var("A"), var("B")), a - b),
         lambda a, b: (op("sub", var("B"), var("A")), b - a), lambda a, b: (op("add", var("A"), cnst(7)), a + 7),
         lambda a, b: (op("sub", var("A"), cnst(12)), a - 12), lambda a, b: (var("A"), a),
         lambda a, b: (op("add", op("sub", var("A"), cnst(3)), var("B")), a - 3 + b),
         lambda a, b: (op("max", var("A"), var("B")), max(a, b)), lambda a, b: (op("min", var("A"), var("B")), min(a, b)),
         lambda a, b: (op("mul", var("A"), var("B")), a * b), lambda a, b: (op("div", var("A"), var("B")), a // b if b and a >= 0 < b else 0),
         lambda a, b: (op("sub", cnst(0), var("B")), -b)]


def show(v, f):
    c = "%x" % abs(v) if f["t"] == "x" else str(abs(v))
    c = c.upper() if f["up"] == "up" else c
    return ("-" if v < 0 else "") + ("0x" if f["pre"] else "") + c.rjust(f["p"], "0")


def cases(rnd, cap):
    jobs = [(f, g) for f in FORMATS for g in FORMATS]
    res = []
    while len(res) < cap:
        rnd.shuffle(jobs)
        for f, g in jobs:
            a, b = rnd.choice(VALUES), rnd.choice(VALUES)
            if f["t"] == "d" and rnd.random() < .5:
                a = -a
            if g["t"] == "d" and rnd.random() < .5:
                b = -b
            e, v = rnd.choice(EXPRS)(a, b)
            o = rnd.choice(OVER)
            # how the result may look
            h = rnd.choice([o, f, g, rnd.choice(FORMATS)])
            h = dict(h, p=rnd.choice([h["p"], h["p"], max(f["p"], g["p"]), o["p"], rnd.randrange(5)]))
            t = show(v, h)
            t = rnd.choice([t] * 6 + [t.upper(), t.replace("0x", ""), "0" + t, t.lstrip("-0"), t[1:], show(v + 1, h)])
            last = nuse(e, o) if rnd.random() < .8 else num("C", o, e)
            c = case([d("plain", num("A", f), lit(" "), num("B", g), lit(";")), d("next", lit(":"), last, lit(";"))],
                     "%s %s;\n:%s;\n" % (show(a, f), show(b, g), t))
            res.append(c)
    return res[:cap]
