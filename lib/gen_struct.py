"""Structured FileCheck cases: every sequence of kinds of directives up to a length, a text that satisfies
it, and that text with one edit, at every place where it can be made."""
import itertools
import gen_fc
from fcase import *

KINDS = ["plain", "next", "same", "empty", "not", "dag", "count", "label"]
# Kinds a family is about: sequences have one of them at least
FOCUS = {"F01": ["plain"], "F02": ["next", "same", "empty"], "F03": ["not"], "F04": ["dag"], "F05": ["count"],
         "F06": ["label"], "F07": KINDS, "F08": ["label"], "F09": KINDS, "F12": KINDS, "F13": KINDS, "F15": KINDS}
VARS = {"F07": "s", "F08": "s", "F09": "n"}
BAD = "z"       # what --implicit-check-not excludes


def sequences(fam, n):
    f = FOCUS[fam]
    for ks in itertools.product(KINDS, repeat=n):
        if not any(k in f for k in ks):
            continue
        # What relates to a match before it needs one
        if ks[0] in ("next", "same", "empty"):
            continue
        if fam in VARS and sum(k != "empty" for k in ks) < 2:
            continue
        yield ks


def build(ks, rnd, mode, word):
    """Directives, and the tokens [separator in front, text] of a text which satisfies them. word: of the i-th."""
    ds, toks, val, group, bad = [], [], None, [], []
    def flush():
        rnd.shuffle(group)
        toks.extend(group)
        group.clear()
    for i, k in enumerate(ks):
        if k != "dag":
            flush()
        if k == "empty":
            ds.append(d("empty"))
            toks.append(["\n", ""])
            continue
        w = word(i)
        ps, t = [lit(w)], w
        if mode and k != "label":
            roles = ["def"] if val is None else rnd.choice([["use"], ["use"], ["def"], ["con"]])
            if mode == "s":
                if roles[0] == "def" and k != "not":
                    val = rnd.choice("st")
                    ps, t = [lit(w), sdef(X, cset("st"))], w + val
                elif val is not None:
                    ps, t = [lit(w), suse(X)], w + val
            elif mode == "n":
                if roles[0] == "def" and k != "not":
                    val = rnd.randint(1, 8)
                    ps, t = [lit(w), num("N")], w + str(val)
                elif val is not None and roles[0] == "con" and k not in ("not", "count"):
                    ps, t = [lit(w), num("N", NOFMT, op("add", var("N"), cnst(1)))], w + str(val + 1)
                    val += 1
                elif val is not None:
                    ps, t = [lit(w), nuse(op("add", var("N"), cnst(1)))], w + str(val + 1)
        if k == "count":
            n = rnd.randint(2, 3)
            ds.append(d("count", *ps, n=n))
            toks += [[rnd.choice(["\n", "\n", " "]), t] for _ in range(n)]
            continue
        ds.append(d(k, *ps))
        if k == "not":
            bad.append(t)
        elif k == "dag":
            group.append([rnd.choice(["\n", " "]), t])
        else:
            toks.append([{"next": "\n", "same": " ", "label": "\n"}.get(k) or rnd.choice(["\n", "\n", " "]), t])
            if k == "label":
                toks.append(["\n", "-"])
    flush()
    return ds, toks, bad


X = "X"


def text(toks):
    return "".join(a + b for a, b in toks).lstrip("\n") if toks else ""


def edits(toks, bad, rnd):
    """The tokens, and the tokens with one thing changed."""
    yield toks
    words = sorted({t for _, t in toks if t and t != "-"})
    for i, (s, t) in enumerate(toks):
        yield toks[:i] + toks[i + 1:]
        yield toks[:i] + [["\n" if s == " " else " ", t]] + toks[i + 1:]
        yield toks[:i] + [["\n\n", t]] + toks[i + 1:]
        if t and t[-1] in "st0123456789":
            v = t[-1]
            yield toks[:i] + [[s, t[:-1] + ("t" if v == "s" else "s" if v == "t" else str((int(v) + 1) % 10))]] + toks[i + 1:]
        if i + 1 < len(toks):
            yield toks[:i] + [[s, toks[i + 1][1]], [toks[i + 1][0], t]] + toks[i + 2:]
    for i in range(len(toks) + 1):
        for w in bad:
            yield toks[:i] + [[rnd.choice(["\n", " "]), w]] + toks[i:]
        if words:
            yield toks[:i] + [[rnd.choice(["\n", " "]), rnd.choice(words)]] + toks[i:]


def cases(fam, rnd, cap, longest=3):
    out = []
    mode = VARS.get(fam)
    for n in range(1, longest + 1):
        for ks in sequences(fam, n):
            for word in (lambda i: "abcdefgh"[i], lambda i: "aab"[i % 3]):
                ds, toks, bad = build(ks, rnd, mode, word)
                imp = [[lit(BAD)]] if fam == "F12" or (fam in ("F13", "F15") and rnd.random() < .2) else []
                scope = fam == "F08" and rnd.random() < .7
                some = list(edits(toks, bad + [BAD] * len(imp), rnd))
                if n == longest:
                    some = [some[0]] + rnd.sample(some[1:], min(len(some) - 1, 12))
                for t in some:
                    out.append((ds, text(t), imp, scope))
    rnd.shuffle(out)
    res = []
    for ds, t, imp, scope in out:
        if len(res) == cap:
            break
        c = case(ds, t, scope=scope, imp=imp)
        if not gen_fc.odd(c):
            res.append(c)
    return res
