"""Hand-written cases per property: corners that random generation reaches rarely. Validated by TLC like any other."""
from fcase import *

P = lambda *a: d("plain", *a)
N = lambda *a: d("next", *a)
SM = lambda *a: d("same", *a)
NO = lambda *a: d("not", *a)
DG = lambda *a: d("dag", *a)
LB = lambda *a: d("label", *a)
CT = lambda n, *a: d("count", *a, n=n)
E = d("empty")
L = lit
A2B2 = plus(cset("ab"))


def cases(f):
    c = case
    if f == "F02":
        return [c([P(L("a")), E], "a\n\n"), c([P(L("a")), E], "a\n"), c([P(L("a")), E], "a"), c([P(L("a")), E, E], "a\n\n\nb"),
                c([P(L("a")), E], "a b\n\n"), c([P(L("a")), N(L("b"))], "a\n\nb"), c([P(L("a")), SM(dict(star(cset("b"))))], "a\n"),
                c([P(L("a")), N(L("b"))], "a"), c([P(L("a")), N(L("b"))], "a\n"), c([LB(L("a")), N(L("b")), LB(L("c"))], "a\nb\nc"),
                c([DG(bol()), SM(star(dot())), LB(L("c"))], "cc\nbd\n"), c([P(L("a")), E, LB(L("c"))], "a\n\nc"),
                c([P(L("a")), E, LB(L("c"))], "a\nc")]
    if f == "F03":
        return [c([P(L("a")), NO(L("b")), NO(L("bc")), P(L("d"))], "a\nbc\nd"), c([P(L("a")), NO(L("abcd")), NO(L("bc")), P(L("e"))], "a xabc e"),
                c([NO(L("x")), P(L("a"))], "a x"), c([NO(L("x")), P(L("a"))], "x a"), c([P(L("a")), NO(L("x"))], "a x"),
                c([P(L("a")), NO(L("x"))], "x a"), c([P(L("a")), NO(L("x")), LB(L("c")), P(L("x"))], "a\nc\nx"),
                c([P(L("a")), NO(L("aa")), P(L("b"))], "aab"), c([P(L("a")), NO(L("bc")), P(L("c"))], "a bc"),
                c([CT(2, L("a")), NO(L("b")), CT(2, L("a"))], "a b a a a"), c([CT(2, L("a")), NO(L("b")), CT(2, L("a"))], "aabaa"),
                c([DG(L("a")), DG(L("b")), NO(L("x")), DG(L("c")), DG(L("d"))], "b a c x d"),
                c([DG(L("a")), DG(L("b")), NO(L("x")), DG(L("c")), DG(L("d"))], "b a x d c")]
    if f == "F04":
        return [c([DG(L("ab")), DG(L("b"))], "ab b"), c([DG(L("b")), DG(L("ab"))], "ab b"), c([DG(L("aa")), DG(L("aa"))], "aaa"),
                c([DG(L("aa")), DG(L("aa"))], "aaaa"), c([DG(L("a")), DG(L("b")), P(L("c"))], "c b a"), c([DG(L("a")), DG(L("b")), P(L("c"))], "b a c"),
                c([P(L("x")), DG(L("a")), DG(L("b")), N(L("c"))], "a b x b a\nc"),
                c([DG(L("a"), dict(star(cset("b")))), DG(L("bb"))], "abb bb"), c([DG(L("a b")), DG(L("a c")), DG(L("a"))], "a c a b a")]
    if f == "F07":
        s = ["a.b", "(", "a*", "[x]", "\\d", "^a", "a|b", "$", "{1}", "?", ".*", "x{2}"]
        r = [c([P(sdef("X", plus(cset(" \n", True)))), N(L("="), suse("X"), L(";"))], "%s\n=%s;\n" % (w, w)) for w in s]
        r += [c([P(sdef("X", plus(cset(" \n", True)))), N(L("="), suse("X"), L(";"))], "%s\n=%s;\n" % (w, v))
              for w, v in (("a.b", "axb"), ("a*", "aaa"), ("a|b", "a"), ("[x]", "x"), ("a+", "aa"), ("a?b", "b"), ("\\d", "1"), (".*", "zz"))]
        r += [c([P(suse("X"))], "aaxyxy", env={"X": ("s", "xy")}), c([P(suse("X"))], "a.b", env={"X": ("s", "a.b")}),
              c([P(suse("X"))], "axb", env={"X": ("s", "a.b")}), c([P(suse("X"))], "abc"), c([NO(suse("X"))], "abc"),
              c([P(sdef("X", plus(cset("ab"))), L("="), suse("X"))], "ab=b b=b"), c([P(sdef("X", A2B2)), P(sdef("X", A2B2)), P(suse("X"))], "a b b"),
              c([P(sdef("X", A2B2)), P(sdef("X", A2B2)), P(suse("X"))], "a b a")]
        return r
    if f == "F09":
        v = lambda n: var(n)
        r = []
        for a, b in ((2**63, 1), (2**64 - 1, 1), (2**127 - 1, 0), (10**37, 10**37), (0, 0), (7, 3), (3, 7)):
            for o in ("add", "sub", "mul", "div", "min", "max"):
                e = dict(op(o, v("N"), v("M")), _call=True)
                val = {"add": a + b, "sub": a - b, "mul": a * b, "min": min(a, b), "max": max(a, b), "div": a // b if b else 0}[o]
                r.append(c([P(num("N"), L(" "), num("M")), N(nuse(e), L(";"))], "%d %d\n%d;\n" % (a, b, val)))
        r += [c([P(num("N")), P(L("v="), nuse(op("sub", op("sub", v("N"), cnst(2)), cnst(3))), L(";"))], "10 v=5; v=11;"),
              c([P(num("N")), P(L("v="), nuse(op("sub", op("add", v("N"), cnst(2)), cnst(3))), L(";"))], "10 v=9; v=9;"),
              c([P(num("N", fmt("x"))), P(L("v="), nuse(op("add", v("N"), cnst(1))), L(";"))], "ff v=100;"),
              c([P(num("N", fmt("x"))), P(L("v="), nuse(op("add", v("N"), cnst(1))), L(";"))], "f v=16;"),
              c([P(num("N", fmt("x", 0, True))), P(L("v="), nuse(op("add", v("N"), cnst(1))), L(";"))], "0xff v=0x100;"),
              c([P(num("N", fmt("x", 0, False, "up"))), P(L("v="), nuse(op("add", v("N"), cnst(10))), L(";"))], "A0 v=AA;"),
              c([P(num("N", fmt("x", 0, False, "up"))), P(L("v="), nuse(op("add", v("N"), cnst(10))), L(";"))], "A0 v=aa;"),
              c([P(num("N", fmt("u", 4))), P(L("v="), nuse(op("add", v("N"), cnst(1))), L(";"))], "0009 v=0010;"),
              c([P(num("N", fmt("u", 4))), P(L("v="), nuse(op("add", v("N"), cnst(1))), L(";"))], "0009 v=10;"),
              c([P(num("N", fmt("d"))), P(L("v="), nuse(op("sub", v("N"), cnst(3))), L(";"))], "1 v=-2;"),
              c([P(num("N")), P(L("v="), nuse(op("sub", v("N"), cnst(3))), L(";"))], "1 v=-2;"),
              c([P(L("a"), num("N"))], "a170141183460469231731687303715884105728"),
              c([P(L("a"), num("N"))], "a170141183460469231731687303715884105727"),
              c([P(num("N")), P(num("M", NOFMT, op("add", v("N"), cnst(1))))], "5 7 6"), c([P(num("N")), P(L("x"), num("M", NOFMT, op("add", v("N"), cnst(1))))], "5 x7 x6"),
              c([P(num("N")), P(L("x"), num("M", NOFMT, op("add", v("N"), cnst(1))))], "5 x7 x66"),
              c([P(nuse(op("add", v("N"), cnst(1))))], "6", env={"N": ("n", 5)}), c([P(nuse(op("add", v("N"), cnst(1))))], "5", env={"N": ("n", 5)})]
        return r
    if f == "F06":
        return [c([LB(L("a")), P(L("x")), LB(L("b")), P(L("x"))], "a\nb\nx"), c([LB(L("a")), P(L("x")), LB(L("b")), P(L("x"))], "a\nx\nb\nx"),
                c([LB(L("a")), P(L("x")), LB(L("b"))], "a x\nb"), c([LB(L("a")), P(L("x")), LB(L("b"))], "a\nx b"),
                c([P(L("x")), LB(L("a"))], "a\nx"), c([P(L("x")), LB(L("a"))], "x\na"), c([LB(L("a")), LB(L("a"))], "a a\na"),
                c([LB(L("a")), LB(L("a"))], "a a"), c([LB(eol()), P(L("b")), LB(eol())], "b\nb\nb"), c([LB(L("b")), NO(L("x")), LB(L("c"))], "x\nb\nc\nx")]
    if f == "F05":
        return [c([CT(3, L("a"))], "aa"), c([CT(3, L("a"))], "a\na\na"), c([CT(2, L("aa"))], "aaa"), c([CT(2, L("a")), P(L("a"))], "aa"),
                c([CT(2, L("a")), N(L("b"))], "a\na\nb"), c([CT(2, L("a")), N(L("b"))], "a\nb\na"), c([CT(2, L("a")), SM(L("b"))], "aab"),
                c([CT(2, L("a")), NO(L("b"))], "aa b"), c([CT(2, L("a")), NO(L("b")), P(L("c"))], "aac b"), c([CT(2, L("a")), LB(L("c"))], "a\nc\na")]
    return []
