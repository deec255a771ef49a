"""Cases of the FileCheck specification: abstract directives, and the text the tool reads for them."""
import re as _re


def codes(s):
    return [b for b in s.encode("utf-8")]


# ---- regular expressions and pieces (see spec/Pattern.tla) ----
def lit(s): return {"k": "lit", "s": codes(s), "_t": s}
def cset(cs, neg=False): return {"k": "set", "c": codes(cs), "neg": neg, "_t": cs}
def rng(spec, cs, neg=False): return {"k": "set", "c": codes(cs), "neg": neg, "_t": cs, "_r": spec}
def dot(): return {"k": "set", "c": [10], "neg": True, "_r": "."}
def seq(*a): return {"k": "seq", "a": list(a)}
def alt(*a): return {"k": "alt", "a": list(a)}
def star(x): return {"k": "star", "x": x}
def plus(x): return {"k": "plus", "x": x}
def opt(x): return {"k": "opt", "x": x}
def bol(): return {"k": "bol"}
def eol(): return {"k": "eol"}
def sdef(n, x): return {"k": "def", "n": n, "x": x}
def suse(n): return {"k": "use", "n": n}


NOFMT = {"t": "none", "p": 0, "pre": False, "up": "any"}
def fmt(t="none", p=0, pre=False, up="any"): return {"t": t, "p": p, "pre": pre, "up": up}
def big(n):
    return {"neg": n < 0, "m": [int(d) for d in str(abs(n))] if n else []}
def num(n="", f=NOFMT, e=None):
    return {"k": "num", "n": n, "f": f, "c": e is not None, "e": e if e is not None else cnst(0)}
def nuse(e, f=NOFMT): return {"k": "nuse", "f": f, "e": e}
def cnst(v): return {"k": "n", "v": big(v), "_v": v}
def var(n): return {"k": "v", "n": n}
def op(o, l, r): return {"k": "op", "o": o, "l": l, "r": r}


def rx(r):
    k = r["k"]
    if k == "lit":
        return _re.sub(r"([\\.+*?()|\[\]{}^$#&~-])", r"\\\1", r["_t"]) if r.get("_t") is not None else None
    if k == "set":
        if "_r" in r:
            return r["_r"]
        body = "".join("\\" + c if c in "\\]^-[&~" else "\\n" if c == "\n" else c for c in r["_t"])
        return "[%s%s]" % ("^" if r["neg"] else "", body)
    if k == "seq":
        return "".join(rx(x) if x["k"] != "alt" else "(?:%s)" % rx(x) for x in r["a"])
    if k == "alt":
        return "|".join(rx(x) for x in r["a"])
    if k in ("star", "plus", "opt"):
        x = r["x"]
        b = rx(x)
        if not (x["k"] == "set" or (x["k"] == "lit" and len(x["_t"]) == 1)):
            b = "(?:%s)" % b
        return b + {"star": "*", "plus": "+", "opt": "?"}[k]
    if k == "bol":
        return "^"
    if k == "eol":
        return "$"
    raise ValueError(k)


def fmt_text(f):
    if f["t"] == "none":
        return ""
    c = f["t"]
    if c == "x" and f["up"] == "up":
        c = "X"
    return "%" + ("#" if f["pre"] else "") + (".%d" % f["p"] if f["p"] else "") + c


OPS = {"add": " + ", "sub": " - "}


def ex_text(e, top=True):
    if e["k"] == "n":
        return str(e["_v"])
    if e["k"] == "v":
        return e["n"]
    if e["o"] in OPS and not e.get("_call"):
        r = ex_text(e["r"], False)
        if e["r"]["k"] == "op" and e["r"]["o"] in OPS and not e["r"].get("_call"):
            r = "(" + r + ")"
        l = ex_text(e["l"], False)
        if e["l"]["k"] == "n" and top or e["l"].get("_call"):
            l = "(" + l + ")"
        return l + OPS[e["o"]] + r
    return "%s(%s, %s)" % (e["o"], ex_text(e["l"]), ex_text(e["r"]))


def piece_text(p):
    k = p["k"]
    if k == "lit" and not p.get("_rx"):
        return p["_t"]
    if k == "def":
        return "[[%s:%s]]" % (p["n"], rx(p["x"]))
    if k == "use":
        return "[[%s]]" % p["n"]
    if k == "num":
        f = fmt_text(p["f"])
        if not p["n"] and not p["c"]:
            return "[[#%s]]" % f
        e = (("== " if p.get("_eq", True) else "") + ex_text(p["e"])) if p["c"] else ""
        if not p["n"]:
            return "[[#%s== %s]]" % (f + ", " if f else "", ex_text(p["e"]))
        return "[[#%s%s:%s]]" % (f + ", " if f else "", p["n"], (" " + e) if e else "")
    if k == "nuse":
        f = fmt_text(p["f"])
        e = ex_text(p["e"])
        return "[[#%s%s]]" % (f + ", " if f else "", "(" + e + ")" if p["e"]["k"] == "n" else e)
    return "{{%s}}" % rx(p)


def pat_text(ps):
    return "".join(piece_text(p) for p in ps)


SUFFIX = {"plain": "", "next": "-NEXT", "same": "-SAME", "empty": "-EMPTY", "not": "-NOT",
          "dag": "-DAG", "label": "-LABEL"}


def d(t, *ps, n=1):
    return {"t": t, "n": n, "ps": list(ps)}


def dir_text(x, prefix="CHECK"):
    s = "-COUNT-%d" % x["n"] if x["t"] == "count" else SUFFIX[x["t"]]
    if x["t"] == "empty":
        return "%s%s:" % (prefix, s)
    return "%s%s: %s" % (prefix, s, pat_text(x["ps"]))


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def case(dirs, inp, icase=False, scope=False, allowempty=False, env=None, imp=(), args=(), tail="\n"):
    """env: name -> ("s", text) or ("n", value)."""
    env = env or {}
    text = "\n".join(dir_text(x) for x in dirs) + tail
    a = list(args)
    if icase:
        a.append("--ignore-case")
    if scope:
        a.append("--enable-var-scope")
    if allowempty:
        a.append("--allow-empty")
    tenv = {}
    for n, v in env.items():
        if v[0] == "s":
            a.append("-D%s=%s" % (n, v[1]))
            tenv[n] = {"t": "s", "v": codes(v[1])}
        else:
            a.append("-D#%s=%d" % (n, v[1]))
            tenv[n] = {"t": "n", "v": big(v[1]), "f": NOFMT}
    for i in imp:
        a.append("--implicit-check-not=" + pat_text(i))
    ds = []
    for i, x in enumerate(dirs):
        y = dict(x)
        y["ln"] = i + 1
        ds.append(y)
    tla = strip({"in": codes(inp), "ds": ds, "opt": {"icase": icase, "scope": scope, "allowempty": allowempty},
                 "env": tenv, "imp": [list(i) for i in imp]})
    return {"real": {"check": text, "input": inp, "args": a}, "tla": tla}
