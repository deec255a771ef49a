"""Random FileCheck cases. A case is built around a witness: text its checks would match, then bent."""
import re
from fcase import *

W = ["a", "b", "c", "ab", "ba", "aa", "bc"]
SPECIAL = ["a.b", "(", "a*", "[x]", "+", "\\d", "^a", "a|b", "$", "{1}", "?", "a.", ".", "-", "x{"]


class G:
    def __init__(self, rnd, **p):
        self.r = rnd
        self.kinds = p.get("kinds", {"plain": 1})
        self.pats = p.get("pats", {"lit": 5, "rx": 3})
        self.n = p.get("n", (1, 5))
        self.icase = p.get("icase", 0.0)
        self.scope = p.get("scope", 0.0)
        self.allowempty = p.get("allowempty", 0.0)
        self.imp = p.get("imp", 0.0)
        self.cli = p.get("cli", 0.0)
        self.words = p.get("words", W)
        self.bend = p.get("bend", 0.5)
        self.chars = p.get("chars", "abc \n")
        self.names = p.get("names", ["X", "Y"])
        self.nnames = p.get("nnames", ["N", "M"])
        self.numfmts = p.get("numfmts", 0.5)
        self.bigs = p.get("bigs", 0.1)
        self.newline = p.get("newline", 0.4)
        self.undef = p.get("undef", 0.08)
        self.calls = p.get("calls", 0.4)

    def pick(self, d):
        ks = list(d)
        return self.r.choices(ks, [d[k] for k in ks])[0]

    # --- regular expressions ---
    # At most one piece of a pattern is of variable extent, and it repeats single bytes: past that
    # the regex engine itself (regex-automata's reverse searches) is not leftmost.
    def byte(self):
        r = self.r.random()
        if r < .25: return lit(self.r.choice("abc"))
        if r < .6: return cset("".join(sorted(set(self.r.choice("abc") for _ in range(2)))), self.r.random() < .15)
        if r < .75: return dot()
        if r < .9: return rng("[a-b]", "ab")
        return rng(r"\w", "".join(chr(c) for c in range(48, 58)) + "".join(chr(c) for c in range(65, 91))
                   + "".join(chr(c) for c in range(97, 123)) + "_")

    def atom(self):
        r = self.r.random()
        if r < .3: return lit(self.r.choice(self.words))
        if r < .7: return self.byte()
        if r < .85:
            k = self.r.randint(1, 2)
            return alt(*[lit(self.r.choice([w for w in self.words if len(w) == k])) for _ in range(self.r.randint(2, 3))])
        return seq(self.byte(), self.byte())

    def regex(self, free=True):
        """free: may be of variable extent."""
        r = self.r.random()
        if r < .35 or not free: return self.atom()
        if r < .5: return star(self.byte())
        if r < .65: return plus(self.byte())
        if r < .75: return opt(self.byte())
        if r < .82: return alt(*[lit(self.r.choice(self.words)) for _ in range(self.r.randint(2, 3))])
        if r < .93: return seq(self.byte(), self.r.choice([star, opt, plus])(self.byte()))
        return self.r.choice([bol, eol])()

    def sample(self, x):
        k = x["k"]
        if k == "lit": return x["_t"]
        if k == "set":
            cs = [chr(c) for c in x["c"]]
            if x["neg"]:
                cs = [c for c in "abcd" if c not in cs]
            return self.r.choice(cs) if cs else "z"
        if k == "seq": return "".join(self.sample(y) for y in x["a"])
        if k == "alt": return self.sample(self.r.choice(x["a"]))
        if k == "star": return "".join(self.sample(x["x"]) for _ in range(self.r.randint(0, 2)))
        if k == "plus": return "".join(self.sample(x["x"]) for _ in range(self.r.randint(1, 2)))
        if k == "opt": return self.sample(x["x"]) if self.r.random() < .5 else ""
        return ""

    # --- numbers ---
    def fmt(self):
        if self.r.random() > self.numfmts:
            return NOFMT
        t = self.r.choice("uudxxx")
        p = self.r.choice([0, 0, 0, 1, 2, 3])
        if t == "x":
            return fmt("x", p, self.r.random() < .3, "any" if self.ic else self.r.choice(["any", "any", "up"]))
        return fmt(t, p)

    def number(self, f):
        r = self.r.random()
        v = self.r.randint(0, 12) if r < .6 else self.r.randint(0, 300) if r < 1 - self.bigs else \
            self.r.choice([2**31, 2**32, 2**63, 2**64 - 1, 10**18, 2**127 - 1, 2**126, 10**37])
        if f["t"] == "d" and self.r.random() < .35:
            v = -v
        return v

    def wr(self, f, v):
        s = "-" if v < 0 else ""
        if f["t"] == "x":
            h = "%x" % abs(v)
            if f["up"] == "up": h = h.upper()
            return s + ("0x" if f["pre"] else "") + h.rjust(f["p"], "0")
        return s + str(abs(v)).rjust(f["p"], "0")

    def expr(self, depth=0):
        r = self.r.random()
        if r < .3 or depth > 2:
            return cnst(self.r.choice([0, 1, 2, 3, 7, 10, 16, 255]))
        if r < .65:
            return var(self.r.choice(self.nnames))
        if self.r.random() < self.calls:
            o = self.r.choice(["add", "sub", "mul", "div", "min", "max"])
            e = op(o, self.expr(depth + 1), self.expr(depth + 1))
            e["_call"] = True
            return e
        # in infix form the right operand is a plain one
        l = self.expr(depth + 1)
        while l["k"] == "op" and l.get("_call"):
            l = self.expr(depth + 1)
        if l["k"] == "n":
            l = var(self.r.choice(self.nnames))
        rr = self.r.choice([cnst(self.r.randint(0, 5)), var(self.r.choice(self.nnames))])
        return op(self.r.choice(["add", "sub"]), l, rr)

    def val(self, e):
        if e["k"] == "n": return e["_v"]
        if e["k"] == "v":
            b = self.env.get(e["n"])
            if b is None or b[0] != "n": raise ValueError
            return b[1]
        l, r = self.val(e["l"]), self.val(e["r"])
        o = e["o"]
        if o == "div" and r == 0: raise ValueError
        return {"add": l + r, "sub": l - r, "mul": l * r, "min": min(l, r), "max": max(l, r),
                "div": int(l / r) if r else 0}[o]

    # --- patterns: returns (pieces, witness) ---
    def known(self, t):
        return [n for n in self.env if self.env[n][0] == t]

    def pattern(self, kind):
        """Literal and regular expression pieces, or pieces with variables kept apart by separators."""
        ks = dict(self.pats)
        if kind in ("label",):
            ks = {k: v for k, v in ks.items() if k in ("lit", "rx", "mix")}
        if kind == "not":
            ks = {k: v for k, v in ks.items() if k not in ("def", "ndef")}
        k = self.pick(ks or {"lit": 1})
        if k == "lit":
            w = lit(self.r.choice(self.words))
            return [w], w["_t"]
        if k == "rx":
            x = self.regex()
            return ([x], self.sample(x)) if x["k"] != "lit" else ([dict(x, _rx=1)], x["_t"])
        if k == "mix":
            ps, w, free = [], "", True
            for _ in range(self.r.randint(2, 3)):
                if ps and ps[-1]["k"] != "lit" or not ps and self.r.random() < .6:
                    x = lit(self.r.choice(self.words))
                else:
                    x = self.regex(free)
                    free = False
                    if x["k"] == "lit": x = dict(x, _rx=1)
                ps.append(x); w += self.sample(x)
            return ps, w
        # with variables: items, each of fixed extent up to the separator behind it
        items = [k]
        others = [x for x in ks if x not in ("lit", "rx", "mix")]
        while self.r.random() < .4 and len(items) < 3:
            items.append(self.r.choice(others + ["word"]))
        if self.r.random() < .4:
            items.insert(self.r.randrange(len(items) + 1), "word")
        ps, w, used, inner = [], "", set(), dict(self.env)
        saved = self.env
        self.env = inner
        try:
            for i, it in enumerate(items):
                if i:
                    s = self.r.choice([" ", "=", ", ", ":"])
                    ps.append(lit(s)); w += s
                x, t = self.item(it, used)
                if x is None:
                    x = lit(self.r.choice(self.words)); t = x["_t"]
                if ps and ps[-1]["k"] == "lit" and x["k"] == "lit":
                    ps[-1] = lit(ps[-1]["_t"] + x["_t"])
                else:
                    ps.append(x)
                w += t
        finally:
            self.env = saved
        self.pend = inner
        return ps, w

    def fixed(self):
        """What a text variable may match: nothing that needs giving back before a separator."""
        r = self.r.random()
        if r < .3: return plus(cset("abc"))
        if r < .5: return star(cset("ab"))
        if r < .6: return seq(cset("ab"), cset("bc"))
        if r < .7: return cset("abc")
        if r < .8: return plus(cset(" \n=:,", True))
        if r < .9: return alt(lit("ab"), lit("c"))
        return lit(self.r.choice(self.words))

    def item(self, it, used):
        if it == "word":
            x = lit(self.r.choice(self.words))
            return x, x["_t"]
        if it == "def":
            free = [n for n in self.names if n not in used]
            if not free: return None, None
            n = self.r.choice(free)
            used.add(n)
            x = self.fixed()
            s = self.sample(x)
            if x["k"] == "plus" and x["x"].get("neg") and self.r.random() < .6:
                s = self.r.choice(SPECIAL)
            self.env[n] = ("s", s)
            return sdef(n, x), s
        if it == "use":
            ns = self.known("s")
            if not ns or self.r.random() < self.undef: ns = self.names
            n = self.r.choice(ns)
            b = self.env.get(n)
            return suse(n), (b[1] if b and b[0] == "s" else "zz")
        if it == "ndef":
            free = [n for n in self.nnames if n not in used]
            if not free: return None, None
            n = self.r.choice(free)
            used.add(n)
            f = self.fmt()
            v = self.number(f)
            self.env[n] = ("n", v, f)
            t = self.wr(f, v)
            return num(n, f), t
        if it == "ncon":
            f = self.fmt()
            e = self.expr()
            free = [n for n in self.nnames if n not in used]
            if not free: return None, None
            n = self.r.choice(free)
            used.add(n)
            try:
                v = self.val(e)
                t = self.wr(f, v)
                self.env[n] = ("n", v, f)
            except ValueError:
                t = "7"
            return num(n, f, e), t
        if it == "nany":
            f = self.fmt()
            v = self.number(f)
            return num("", f), self.wr(f, v)
        if it == "nuse":
            f = self.fmt() if self.r.random() < .5 else NOFMT
            e = self.expr()
            if not self.known("n") and self.r.random() > self.undef:
                e = cnst(self.r.randint(0, 20))
            try:
                v = self.val(e)
                g = f
                if g["t"] == "none":
                    for b in self.evars(e):
                        g = self.env[b][2] if self.env[b][2]["t"] != "none" else g
                t = self.wr(g, v)
            except ValueError:
                t = "5"
            return nuse(e, f), t
        raise ValueError(it)

    def evars(self, e):
        if e["k"] == "v": return [e["n"]]
        if e["k"] == "op": return self.evars(e["l"]) + self.evars(e["r"])
        return []

    def noise(self, k=3):
        return "".join(self.r.choice(self.chars) for _ in range(self.r.randint(0, k)))

    def case(self, extra=()):
        r = self.r
        self.env = {}
        self.ic = r.random() < self.icase
        env = {}
        if r.random() < self.cli:
            for _ in range(r.randint(1, 2)):
                if any(p in self.pats for p in ("nuse", "ncon")) and r.random() < .6:
                    n = r.choice([x for x in self.nnames if x[0] != "$"]) if r.random() < .8 else "Z"
                    env[n] = ("n", r.randint(0, 20))
                else:
                    n = r.choice([x for x in self.names if x[0] != "$"])
                    env[n] = ("s", r.choice(self.words))
            self.env = {n: v if v[0] == "s" else (v[0], v[1], NOFMT) for n, v in env.items()}
        dirs, text = [], ""
        group = None
        for i in range(r.randint(*self.n)):
            ks = dict(self.kinds)
            if not any(x["t"] not in ("not",) for x in dirs) and r.random() > .03:
                for b in ("next", "same", "empty"):
                    ks.pop(b, None)
            t = self.pick(ks or {"plain": 1})
            self.pend = None
            ps, w = self.pattern(t)
            if w == "" and t in ("plain", "not", "count", "dag", "next", "same", "label") and r.random() < .5:
                w = ""
            if t == "empty":
                dirs.append(d(t)); text = text.rstrip("\n") + "\n\n" if text else "\n"
                continue
            if t == "count":
                n = r.randint(1, 3)
                dirs.append(d(t, *ps, n=n))
                text += "".join(w + self.noise(2) for _ in range(n))
            else:
                dirs.append(d(t, *ps))
                if t == "not":
                    if r.random() < .25: text += w
                    continue
                if t == "next": text += r.choice(["\n", "b\n", "\n "]) + w
                elif t == "same": text += r.choice(["", " ", "c"]) + w
                elif t == "label": text += "\n" + w + r.choice(["", " "]) + "\n"
                else:
                    text += (r.choice(["\n", " ", "\n "]) if r.random() < self.newline else self.noise(2)) + w
            if self.pend is not None:
                self.env = self.pend
        while r.random() < self.bend:
            text = self.mutate(text)
        if r.random() < .5: text += "\n"
        imps = []
        if r.random() < self.imp:
            for _ in range(r.randint(1, 2)):
                kind = self.pick({"lit": 3, "rx": 2})
                x = lit(r.choice(self.words + ["d", "e"])) if kind == "lit" else self.regex()
                if x["k"] == "lit" and kind == "rx": x = dict(x, _rx=1)
                imps.append([x])
        if not dirs: dirs = [d("plain", lit("a"))]
        if not text and r.random() > .05: text = "a"
        return case(dirs, text, icase=self.ic, scope=r.random() < self.scope,
                    allowempty=r.random() < self.allowempty, env=env, imp=imps, args=extra)

    def mutate(self, s):
        r = self.r
        k = r.randrange(6)
        i = r.randrange(len(s) + 1)
        if k == 0: return s[:i] + r.choice(self.chars) + s[i:]
        if k == 1 and s: return s[:i] + s[i + 1:]
        if k == 2 and s:
            j = r.randrange(len(s) + 1); i, j = min(i, j), max(i, j)
            return s[:i] + s[j:] if r.random() < .3 else s[:j] + s[i:j] + s[j:]
        if k == 3: return s[:i] + "\n" + s[i:]
        if k == 4: return s[:i] + r.choice(self.words) + s[i:]
        if k == 5 and self.icase: return s[:i] + s[i:i + 1].swapcase() + s[i + 1:]
        return s


TEXTV = {"lit": 2, "def": 4, "use": 5}
NUMV = {"lit": 1, "ndef": 4, "nuse": 5, "ncon": 3}
FAM = {
    "F01": [dict(kinds={"plain": 1}, pats={"lit": 4, "rx": 3, "mix": 3}, n=(1, 6)),
            dict(kinds={"plain": 1}, pats={"lit": 1, "mix": 3, "def": 2}, n=(2, 5)),
            dict(kinds={"plain": 1}, pats={"lit": 1, "rx": 1, "mix": 1}, icase=.7, n=(2, 4), chars="aAbB \n")],
    "F02": [dict(kinds={"plain": 2, "next": 3, "same": 3, "empty": 2}, pats={"lit": 4, "rx": 3, "mix": 1}, chars="ab\n\n", n=(2, 6)),
            dict(kinds={"plain": 1, "next": 3, "same": 2, "empty": 2, "label": 1, "not": 1, "dag": 1, "count": 1}, chars="ab\n\n", n=(2, 6)),
            dict(kinds={"plain": 1, "next": 2, "same": 2}, pats={"lit": 1, "def": 2, "use": 3}, n=(2, 5))],
    "F03": [dict(kinds={"plain": 3, "not": 4}, pats={"lit": 4, "rx": 2, "mix": 1}, n=(2, 6)),
            dict(kinds={"plain": 2, "not": 4, "label": 1, "dag": 1, "next": 1, "same": 1, "count": 1}, n=(2, 6)),
            dict(kinds={"plain": 3, "not": 3}, pats={"lit": 2, "rx": 1, "def": 2, "use": 3, "nuse": 1, "ndef": 1}, n=(2, 6))],
    "F04": [dict(kinds={"dag": 5, "plain": 1}, pats={"lit": 4, "rx": 2, "mix": 1}, n=(2, 5)),
            dict(kinds={"dag": 5, "plain": 1, "not": 1, "label": 1, "next": 1, "same": 1}, n=(3, 6)),
            dict(kinds={"dag": 5, "plain": 1}, pats={"lit": 1, "def": 2, "use": 3}, n=(2, 5))],
    "F05": [dict(kinds={"count": 3, "plain": 1}, pats={"lit": 3, "rx": 3, "mix": 1}, n=(1, 4)),
            dict(kinds={"count": 3, "plain": 1, "not": 1, "next": 1, "same": 1, "label": 1, "dag": 1}, n=(1, 5)),
            dict(kinds={"count": 3, "plain": 2}, pats={"lit": 1, "def": 1, "use": 3}, n=(2, 4))],
    "F06": [dict(kinds={"label": 3, "plain": 4}, pats={"lit": 4, "rx": 2, "mix": 1}, n=(2, 6)),
            dict(kinds={"label": 4, "plain": 2, "not": 2, "dag": 1, "next": 1, "same": 1, "empty": 1, "count": 1}, n=(3, 7)),
            dict(kinds={"label": 2, "plain": 3}, pats={"lit": 1, "def": 1, "use": 2}, n=(3, 6))],
    "F07": [dict(kinds={"plain": 1}, pats=TEXTV, n=(2, 5)),
            dict(kinds={"plain": 4, "next": 1, "same": 1, "dag": 2, "not": 1, "count": 1, "label": 1}, pats=TEXTV, n=(2, 6), cli=.3),
            dict(kinds={"plain": 1}, pats=TEXTV, n=(2, 4), icase=.5, chars="aAbB \n", cli=.3)],
    "F08": [dict(kinds={"plain": 4, "label": 2}, pats=TEXTV, names=["X", "Y", "$G", "$H"], scope=.7, cli=.4, n=(3, 7), undef=.2),
            dict(kinds={"plain": 4, "label": 2, "not": 1, "dag": 1, "next": 1}, names=["X", "$G"], nnames=["N", "$H"],
                 pats={"def": 2, "use": 3, "ndef": 2, "nuse": 2}, scope=.7, cli=.3, n=(3, 7), undef=.2)],
    "F09": [dict(kinds={"plain": 1}, pats=NUMV, n=(1, 4), chars="01a \n-"),
            dict(kinds={"plain": 1}, pats=NUMV, n=(1, 4), chars="019fF \n-", cli=.5, bigs=.3, numfmts=.7),
            dict(kinds={"plain": 4, "next": 1, "same": 1, "dag": 1, "not": 1, "count": 1}, pats=NUMV, n=(2, 5), chars="012 \n", cli=.3)],
    "F12": [dict(kinds={"plain": 3, "not": 1, "count": 1, "next": 1, "same": 1}, imp=.95, n=(1, 5)),
            dict(kinds={"plain": 3, "dag": 2, "label": 2, "empty": 1}, imp=.95, n=(1, 5), icase=.2),
            dict(kinds={"plain": 2}, pats={"lit": 1, "def": 1, "use": 2}, imp=.95, n=(1, 4))],
    "F13": [dict(kinds={"plain": 3, "next": 1, "same": 1, "empty": 1, "not": 2, "dag": 2, "count": 1, "label": 1},
                 pats={"lit": 3, "rx": 3, "mix": 1, "def": 1, "use": 1, "ndef": 1, "nuse": 1, "ncon": 1},
                 n=(1, 7), imp=.1, scope=.2, icase=.2, cli=.2, allowempty=.3)],
}


def odd(c):
    """Areas of the known findings, and of numbers past 128 bits (see lib/fixed_fc.py)."""
    if any(len(x) > 39 or len(x) > 31 and (not x.isdigit() or int(x) >= 2**127)
           for x in re.findall("[0-9a-fA-F]{32,}", c["real"]["input"])):
        return True
    ds = c["tla"]["ds"]
    i = 0
    while i < len(ds):
        # NOT with variables, CHECK-DAG group, plain or COUNT
        if ds[i]["t"] == "not":
            v = False
            while i < len(ds) and ds[i]["t"] == "not":
                v = v or any(p["k"] in ("use", "nuse", "num") for p in ds[i]["ps"])
                i += 1
            j = i
            while j < len(ds) and ds[j]["t"] == "dag":
                j += 1
            if v and j > i and j < len(ds) and ds[j]["t"] in ("plain", "count"):
                return True
        else:
            i += 1
    return False


def cases(fam, rnd, n):
    ps = FAM[fam]
    out = []
    for i in range(n):
        g = G(rnd, **ps[i % len(ps)])
        c = g.case()
        while odd(c):
            c = g.case()
        out.append(c)
    return out
