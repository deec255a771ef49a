"""Random texts of check files: which lines hold directives (F10), and what their patterns mean (F11)."""
from fcase import codes, big, NOFMT

WORDS = ["a", "b", "ab", "c", "abc", "d"]
SUFFIX = {"plain": "", "next": "-NEXT", "same": "-SAME", "not": "-NOT", "dag": "-DAG", "label": "-LABEL", "empty": "-EMPTY"}


def text_case(check, inp, prefixes=None, comments=None, icase=False, scope=False, allowempty=False,
              strict=False, allowunused=False, env=None, imp=(), multi=False, verdict=False):
    a = []
    if prefixes:
        a += ["--check-prefixes=" + ",".join(prefixes)] if multi or len(prefixes) > 1 else ["--check-prefix=" + prefixes[0]]
    if comments:
        a.append("--comment-prefixes=" + ",".join(comments))
    for on, f in ((icase, "--ignore-case"), (scope, "--enable-var-scope"), (allowempty, "--allow-empty"),
                  (strict, "--strict-whitespace"), (allowunused, "--allow-unused-prefixes")):
        if on:
            a.append(f)
    tenv = {}
    for n, v in (env or {}).items():
        a.append("-D%s=%s" % (n, v))
        tenv[n] = {"t": "s", "v": codes(v)}
    a += ["--implicit-check-not=" + i for i in imp]
    tla = {"check": codes(check), "in": codes(inp), "prefixes": [], "env": tenv, "imp": [codes(i) for i in imp],
           "opt": {"icase": icase, "scope": scope, "allowempty": allowempty, "strict": strict, "allowunused": allowunused, "verdict": verdict,
                   "prefixes": [codes(p) for p in sorted(prefixes or ["CHECK"])],
                   "comments": [codes(p) for p in sorted(comments or ["COM", "RUN"])]}}
    return {"real": {"check": check, "input": inp, "args": a}, "tla": tla}


PREFIXES = [None] * 5 + [["FOO"], ["FOO", "BAR"], ["C-1"], ["A_B", "CHECK"], ["FOO", "FOOBAR"], ["Z9"], ["CHECK", "CHK"]]
COMMENTS = [None] * 4 + [["NOTE"], ["RUN", "X-RUN"]]
BEFORE = ["", "", "", "", "\0 ", "// ", "# ", "  ", "\t", "x ", "; y ", "//\t", "\u00e9 ", ": ", "CHECKS: ", "-- a: ", "/* "]
GLUED = ["x", "\0", "//", "_", "-", "1", "\u00e9", "#", ":", "X-", "."]
GAP = ["", " ", " ", " ", "  ", "\t", " \t "]
TAIL = ["", "", "", "", " ", "\t", "  ", " \t", "\r"]


def lexing(r):
    pf, cm = r.choice(PREFIXES), r.choice(COMMENTS)
    ps, cs = pf or ["CHECK"], cm or ["COM", "RUN"]
    strict = r.random() < .12
    lines, text, first = [], "", True
    used = set()
    n = r.randint(1, 6)
    for i in range(n):
        if r.random() < .25:
            lines.append(r.choice(["", "  ", "a b", "code();", "\t", "CHEC", "CHECK", "a: b", "\u00e9", "{{", "[[X", "\0", "\0x", " \0 ", "\u2028", "\x0b\x0c"]))
        w = r.choice(WORDS)
        p = r.choice(ps)
        k = r.random()
        if k < .30:        # something that only looks like a directive
            oth = [x for x in ("CHECK", "FOO", "BAR", "FOOBAR", "Z9", "C-1") if x not in ps]
            pre = r.choice(BEFORE)
            lines.append(pre + r.choice([
                r.choice(GLUED) + p + ":", p + " :", p + "-FOO:", p.lower() + ":", p + "S:", p + "-NEXT-NOT:", p + "-NOT-DAG:",
                p + "-COUNT:", p + "-COUNT-:", p + "-COUNT-x:", p + "-COUNT-2x:", p + "{LIT}:", p + "{LITERAL}x:", p + "{}:",
                p + "{LITERAL,}:", p + "{literal}:", p + "-:", p + "- NEXT:", p + "-NEXT :", p + "-next:", p + "-LABELS:",
                r.choice(oth) + ":", r.choice(oth) + "-NOT:", p, p + " " + w, p + "=", p + ";", p + "-NEXT" + p + ":", p + "-EMPTYX:",
                p + "{LITERAL}{LITERAL}:", r.choice(cs) + ": " + p + ":", r.choice(cs) + ": x " + p + "-NEXT:",
                r.choice(cs) + ":" + p + ":"]) + r.choice(GAP) + "z" + w)
            continue
        if k < .38:        # a comment prefix that does not count, in front of a directive that does
            lead = r.choice(["x" + r.choice(cs) + ": ", r.choice(cs) + " ", r.choice(cs) + " : ", r.choice(cs).lower() + ": ",
                             "//" + r.choice(cs) + ": ", r.choice(cs) + "-NOT: ", r.choice(cs) + "S: "])
        else:
            lead = r.choice(BEFORE)
        kinds = ["plain"] * 4 + ["not", "dag", "label", "count"] + ([] if first else ["next", "same", "empty"])
        t = r.choice(kinds)
        mod = r.choice([""] * 7 + ["{LITERAL}", "{LITERAL}", "{ LITERAL}", "{LITERAL,LITERAL}", "{LITERAL , LITERAL}"])
        gap, tail = r.choice(GAP), r.choice(TAIL)
        if strict:
            gap, tail = r.choice(["", " ", " ", "  "]), ""
        c = 1
        if t == "count":
            q = r.choice(["1", "2", "3", "2", "02", "0", "256", "255", "999999999999", "007"])
            suf = "-COUNT-" + q
            c = int(q) if int(q) < 20 else 1
        else:
            suf = SUFFIX[t]
        body = "" if t == "empty" else w
        if r.random() < .03:
            body = "" if body else w
        if strict and not body:      # blanks alone are not taken as a pattern
            gap = ""
        if r.random() < .15:
            body += r.choice([" " + p + ": x", " RUN: y", " " + r.choice(cs) + ": z", ":", " :", " " + p + "-NOT: b", " {{b|c}}",
                              "[[", "}}", " \\", " a", "  b"])
        if r.random() < .06 and t != "empty":
            body = r.choice(["{{", "[[X", "{{a", "[[", "[[]]", "{{b}} {{"]) + body
        lines.append(lead + p + suf + mod + ":" + gap + body + tail)
        used.add(p)
        if t != "not":
            first = False
        wit = body.replace("{{b|c}}", r.choice("bc"))
        if strict:
            wit = (gap[1:] if gap[:1] == " " else gap) + wit
        if t == "not":
            if r.random() < .1: text += w
            continue
        if t == "next": text = text + "\n" + wit
        elif t == "same": text += " " + wit
        elif t == "empty": text += "\n\n"
        elif t == "label": text += "\n" + wit + "\n"
        elif t == "count": text += (wit + " ") * c
        else: text += r.choice([" ", "\n", ""]) + wit
    check = "\n".join(lines) + r.choice(["\n", "\n", ""])
    if r.random() < .3: text += r.choice(["\n", " a", "b", "\nzz"])
    if r.random() < .15 and text:
        i = r.randrange(len(text)); text = text[:i] + text[i + 1:]
    return text_case(check, text or "a", pf, cm, strict=strict, allowunused=r.random() < .5, multi=r.random() < .5)


# Each with texts it matches, and whether its extent varies. At most one of those stands in a pattern:
# past that the regex engine itself is not leftmost (see gen_fc).
REGEX = [("a", "a", 0), ("[ab]", "ab", 0), ("a|b", "ab", 0), (".", "ax.", 0), ("a.c", ["abc", "a.c"], 0), ("\\.", ".", 0), ("a\\*", ["a*"], 0),
         ("\\d", "17", 0), ("\\w", "aZ_9", 0), ("[^a]", "bx.", 0), ("[a-c]", "abc", 0), ("[[:digit:]]", "05", 0), ("[[:alpha:]]", "qQ", 0),
         ("(a|b)c", ["ac", "bc"], 0), ("(?:ab)", ["ab"], 0), ("[a\\]]", "a]", 0), ("[]a]", "]a", 0), ("[^]a]", "bc", 0), ("[.*+]", ".*+", 0),
         ("\\$", "$", 0), ("\\(a\\)", ["(a)"], 0), ("a\\|b", ["a|b"], 0), ("a[[]b", None, 0), ("ab|cd", ["ab", "cd"], 0), ("\\\\", "\\", 0),
         ("a*", ["", "a", "aaa"], 1), ("a+", ["a", "aa"], 1), ("a?", ["", "a"], 1), ("[ab]+", ["a", "ba"], 1), (".*", ["", "xy"], 1),
         (".+", ["q", "x y"], 1), ("\\d+", ["1", "23"], 1), ("[[:digit:]]+", ["4", "56"], 1), ("(ab)+", ["ab", "abab"], 1), ("a|bc", ["a", "bc"], 1),
         ("[^ ]+", ["x", "y.z"], 1), ("ab?", ["a", "ab"], 1), ("(a{2})", ["aa"], 0), ("(a{1,2})b", ["ab", "aab"], 1), ("x|", ["x", ""], 1),
         ("\\s", " ", 0), ("[a-]", "a-", 0), ("[-a]", "a-", 0), ("\\-", "-", 0), ("\\w+", ["ab", "x1"], 1), ("A|b", "Ab", 0), ("[A-C]", "ABC", 0),
         (" a ", [" a "], 0), (" +", [" ", "  "], 1), ("a ", ["a "], 0), (" ", " ", 0), ("a\\.b", ["a.b"], 0), ("[^\\w]", ".-", 0), ("a{3}", None, 0), ("^a", None, 1), ("a$", None, 1), ("\\n", "\n", 0)]
BADRX = ["(", "a)", "[a", "*", "a|*b", "+", "[b-a]", "(a", "a(b", "[", "\\"]
LITS = ["a", "b.c", "(", ")", "*", "a+b", "[x]", "\\d", "^", "$", "a|b", "{1}", "?", ".", "-", "x{", "}", "]", "[", "}}", "]]", "{ {", "a b", "\\", "#",
        "%", "\"", "'", "<&>", "~", "`", "@", "\u00e9", "\u20ac", "A", "Bc", ",", "$X", "X", "a:b", "{", "\\.", "\\\\", "(?i)", "[^a]", "[[:alpha:]]"]


def patterns(r):
    ic, strict = r.random() < .3, r.random() < .15
    lines, text = [], ""
    vars_ = {}
    env = {}
    if r.random() < .15:
        env["V"] = r.choice(LITS[:20])
        vars_["V"] = env["V"]
    for i in range(r.randint(1, 4)):
        t = r.choice(["plain"] * 6 + ["not", "dag", "label", "count", "next" if i else "plain", "same" if i else "plain"])
        lit = r.random() < .12
        body, wit, free = "", "", True
        new = {}
        if lit:
            body = "".join(r.choice(LITS + ["{{a}}", "[[X]]", "[[", "{{", " "]) for _ in range(r.randint(1, 3))).strip() or "x"
            wit = body
        else:
            n = r.randint(1, 3)
            prev = ""
            for j in range(n):
                k = r.random()
                if k < .45 or prev in ("rx", "var") and k < .7:
                    x = r.choice(LITS)
                    if prev == "lit" and r.random() < .5: x = " " + x
                    body += x; wit += x; prev = "lit"
                elif k < .85 or t in ("not", "label"):
                    x, ws, v = r.choice(REGEX)
                    while v and not free:
                        x, ws, v = r.choice(REGEX)
                    if r.random() < .05:
                        x, ws = r.choice(BADRX), None
                    if v: free = False
                    body += "{{" + x + "}}"; wit += r.choice(ws) if ws else "a"; prev = "rx"
                elif k < .93 and not new:
                    x, ws, v = r.choice([q for q in REGEX if not q[0].startswith(("^",)) and not q[0].endswith("$")])
                    while v and not free:
                        x, ws, v = r.choice(REGEX)
                    if v: free = False
                    nm = r.choice("XY")
                    s = r.choice(ws) if ws else "a"
                    body += "[[%s:%s]]" % (nm, x); wit += s; prev = "var"
                    new[nm] = s
                elif vars_ and not any(q in body for q in ("{{", ":")) and not new:
                    nm = r.choice(list(vars_))
                    body += "[[%s]]" % nm; wit += vars_[nm]; prev = "var"; free = False
                else:
                    body += "a"; wit += "a"; prev = "lit"
        if t not in ("not", "label"): vars_.update(new)
        if ic and r.random() < .6: wit = "".join(r.choice([c, c.swapcase()]) for c in wit)
        if not body.strip(): body = wit = "q"
        if r.random() < .12:
            body = body.replace(" ", "\t")
        if r.random() < .1:
            wit = wit.replace(" ", "\t")
        suf = SUFFIX.get(t) if t != "count" else "-COUNT-%d" % r.randint(1, 2)
        lines.append("CHECK%s%s: %s" % (suf, "{LITERAL}" if lit else "", body))
        if t == "not":
            if r.random() < .2: text += wit
            continue
        if t == "label": text += "\n" + wit + "\n"
        elif t == "count": text += wit + wit
        elif t == "next": text += "\n" + wit
        else: text += r.choice(["", " ", "\n", "x", "a"]) + wit
    while r.random() < .35 and text:
        i = r.randrange(len(text) + 1)
        text = r.choice([text[:i] + r.choice("ab.*+\\ \n[]{}()$^x1") + text[i:], text[:i] + text[i + 1:], text[:i] + text[i:i + 1].swapcase() + text[i + 1:]])
    imp = []
    if r.random() < .05: imp = [r.choice(["zz", "q.", "{{[q]}}", "a*b", "{{("])]
    check = "\n".join(lines) + "\n"
    if ic or "\\w" in check or "\\s" in check or "\\d" in check:
        # the engine folds and classifies all of Unicode, the specification ASCII only
        check, text = (t.replace("\u00e9", "e").replace("\u20ac", "!") for t in (check, text))
        env = {n: v.replace("\u00e9", "e").replace("\u20ac", "!") for n, v in env.items()}
    return text_case(check, text or "a", icase=ic, strict=strict, env=env, imp=imp)


def newlines(r):
    """Texts whose lines end in CRLF, some of them"""
    c = r.choice([lexing, patterns])(r)
    real, tla = c["real"], c["tla"]
    for f, g in (("check", "check"), ("input", "in")):
        if r.random() < .7:
            some = r.random() < .3
            real[f] = "".join("\r\n" if ch == "\n" and not (some and r.random() < .5) else ch for ch in real[f])
            tla[g] = codes(real[f])
    return c


SOUP = ["CHECK", "CHECK:", "CHECK: ", "CHECK-NEXT: ", "CHECK-SAME: ", "CHECK-NOT: ", "CHECK-DAG: ", "CHECK-LABEL: ", "CHECK-EMPTY:",
        "CHECK-COUNT-2: ", "CHECK-COUNT-0:", "CHECK-COUNT-999: ", "CHECK{LITERAL}: ", "-", ":", "{{", "}}", "[[", "]]", "[", "]", "{", "}", "(", ")",
        "*", "+", "?", "|", "\\", "^", "$", ".", "[[X:", "[[X]]", "[[$Y:a]]", "[[#", "[[#N:]]", "[[#N+1]]", "[[#%x,M:]]", "[[#N==", "[[#%.3u,",
        "[[#@LINE]]", "[[@LINE+1]]", "#", "@", "a", "b", "ab", "1", "0x1f", "-5", "18446744073709551615", "99999999999999999999999999999999999999999",
        " ", "  ", "\t", "\n", "\n", "\n", "\r\n", "\r", "\u00e9", "\u20ac", "\U0001f600", "\u200b", "\x00", "\x0b", "a{99999}", "{{a{2,}}}", "{{(?i)a}}",
        "{{\\1}}", "[[X:.*]]", "{{.*}}", "{{^}}", "{{$}}", "COM:", "RUN:", "// ", "\ufeff"]


def soup(r):
    """Any text as check file and as input, valid or not"""
    check = "".join(r.choice(SOUP) for _ in range(r.randint(1, 16)))
    if r.random() < .8:
        check = "CHECK" + r.choice(["", "-NEXT", "-NOT", "-DAG", "-LABEL", "-SAME", "-COUNT-3", "{LITERAL}"]) + ":" + r.choice(["", " "]) + check
    inp = "".join(r.choice(SOUP[10:] if r.random() < .7 else [check]) for _ in range(r.randint(0, 12)))
    return text_case(check, inp, icase=r.random() < .2, scope=r.random() < .3, verdict=True, allowempty=r.random() < .3, strict=r.random() < .2,
                     imp=["".join(r.choice(SOUP[15:]) for _ in range(2)).strip() or "a"] if r.random() < .1 else [])


FAM = {"F13": [soup], "F10": [lexing] * 5 + [newlines], "F11": [patterns] * 5 + [newlines]}


def cases(fam, rnd, n):
    return [FAM[fam][i % len(FAM[fam])](rnd) for i in range(n)]


# Numeric blocks: expressions and what they come to, with X = 5 and Y = 12 before, in line 3
def expression(r, depth):
    k = r.random()
    if depth == 0 or k < .35:
        return r.choice([("X", 5), ("X", 5), ("Y", 12), ("min", 7), ("@LINE", 3)] + [(str(n), n) for n in (0, 1, 2, 9, 10, 255)] + [("0x1f", 31), ("0xAb", 171), ("-3", -3), ("007", 7)])
    gap = lambda: r.choice(["", "", " ", "\t", "  "])
    if k < .7:
        (a, x), (b, y) = expression(r, depth - 1), expression(r, depth - 1)
        if "+" in b or "-" in b:
            b = "(" + b + ")"
        plus = r.random() < .5
        return a + gap() + "+-"[not plus] + gap() + b, x + y if plus else x - y
    if k < .8:
        a, x = expression(r, depth - 1)
        return "(" + gap() + a + gap() + ")", x
    (a, x), (b, y) = expression(r, depth - 1), expression(r, depth - 1)
    f = r.choice(["add", "sub", "mul", "div", "min", "max"])
    v = {"add": x + y, "sub": x - y, "mul": x * y, "min": min(x, y), "max": max(x, y), "div": x // y if y > 0 <= x else 0}[f]
    return f + gap() + "(" + gap() + a + gap() + "," + gap() + b + gap() + ")", v


NUMFMT = [""] * 4 + ["%u,", "%d,", "%d,", "%x,", "%X,", "%#x,", "%.3u,", "%.2d,", "%.4x,", "%#.4X,", "%,", "%.2,", "%d , ", "%.40u,", "%.45d,", "%.33x,"]
NUMODD = ["+", "-", "(", ")", ",", ":", "==", "%", "#", "1", "X", "Z", "add(", "@", "@LINE", "*", "=", ".", "$", "0x", "[", "%q,", "%#d,", "%.256u,", "foo(1,2)", "9" * 40, "min", " "]


def blocks(r):
    e, v = expression(r, r.choice([0, 1, 1, 2, 3]))
    f = r.choice(NUMFMT)
    line = r.random() < .12
    head = "" if line else r.choice(["", "", "", "", "==", "Z:", "Z: ", "Z:==", "Z : == ", " "])
    text = ("@LINE" + r.choice(["", "+", " + ", "-", "- "]) if line else "#" + f + head)
    if line:
        n = r.choice([0, 1, 2])
        text, v = ("@LINE", 3) if text == "@LINE" else (text + str(n), 3 + n if "+" in text else 3 - n)
    else:
        text += e + r.choice(["", "", " "])
    if r.random() < .3:
        i = r.randrange(len(text) + 1)
        text = text[:i] + r.choice(NUMODD) + text[i:] if r.random() < .6 else text[:i] + text[i + 1:]
    hexa = "x" in f or "X" in f
    w = ("%x" % abs(v) if hexa else str(abs(v)))
    if "X" in f:
        w = w.upper()
    if "." in f:
        w = w.rjust(int("".join(c for c in f if c.isdigit())), "0")
    w = ("-" if v < 0 else "") + ("0x" if "#" in f else "") + w
    if r.random() < .15:
        w = r.choice([w[1:], w + "0", "7", "z"])
    check = "CHECK: x=[[#X:]] y=[[#Y:]]\nCHECK: m=[[#min:]]\n%s: <[[%s]]>%s\n" % (r.choice(["CHECK"] * 5 + ["CHECK-NEXT", "CHECK-DAG", "CHECK-COUNT-1"]), text, r.choice(["", "", "", " {{[a-z]}}", " [[#X]]"]))
    return text_case(check, "x=5 y=12\nm=7\n<%s>%s\n" % (w, r.choice(["", " q", " 5"])))


FAM["F09"] = [blocks]


# Check files of several directives some of which cannot be used
WRONG = ["{{(}}", "{{a{{b}}", "[[X", "[[X:", "[[]]", "[[a b]]", "[[X:(]]", "{{[z-a]}}", "{{*}}", "[[#%q,]]", "[[#1+]]", "[[#foo(1,2)]]", "[[#X:", "[[@LINE+]]",
         "[[1:a]]", "{{a", "[[#(1]]", "[[#add(1)]]", "[[X y:a]]", "[[#%u]]", "{{\\}}", "[[@FOO]]", "[[#X Y]]", "{{a)}}"]
RIGHT = ["a", "b c", "{{a|b}}", "[[X:a]]", "[[X]]", "[[#N:]]", "[[#N+1]]", "[[@LINE]]", "[[#%x,M:]]", "\u00e9", "]]", "}}", "[", "{", "  ", "\t", "{{[[]}}", "[[Y:[^]]+]]"]


def wrongs(r):
    ps = r.choice([["CHECK"]] * 4 + [["A", "B"], ["A", "AB"], ["FOO", "B", "CHECK"]])
    lines, wrong = [], r.choice([.1, .3])
    for _ in range(r.randint(1, 6)):
        k = r.choice(["", "", "", "-NEXT", "-SAME", "-NOT", "-NOT", "-DAG", "-LABEL", "-EMPTY", "-COUNT-2", "-COUNT-2", "-COUNT-3", r.choice(["-COUNT-0", "-COUNT-256", "-COUNT-00300"]), "{LITERAL}"][:3 if not lines and r.random() < .9 else None]) if r.random() < .5 else ""
        body = "".join(r.choice(RIGHT) + r.choice(["", " "]) for _ in range(r.choice([1, 1, 2, 3]) if r.random() < .97 else 0))
        if r.random() < wrong:
            body += r.choice(WRONG) + r.choice(["", " ", " b", "\u00e9", " {{x}}", " [[Y:a]]"]) + (r.choice(WRONG) if r.random() < .2 else "")
        if "EMPTY" in k and r.random() < .7:
            body = ""
        lines.append(r.choice(["", "", "// ", "\t", "\u00e9 ", "  ", "x \u65e5 "]) + r.choice(ps) + k + ":" + r.choice(["", " ", "\t", "  "]) + body + r.choice(["", "", " ", "\t"]))
        if r.random() < .2:
            lines.append(r.choice(["", " ", "x", "\t", "COM: " + ps[0] + ": {{(}}", "RUN: [[", "\u00e9[["]))
    text = r.choice(["\n", "\n", "\n", "\r\n"]).join(lines) + r.choice(["", "\n", "\n", "\n\n"])
    imp = [r.choice(["a", "{{a}}", "b", "{{(}}", "[[", "[[X]]", "[[#N]]", "{{a", "b}}"]) for _ in range(r.randint(1, 3))] if r.random() < .12 else []
    return text_case(text, "a\n", prefixes=None if ps == ["CHECK"] else ps, multi=True, allowunused=r.random() < .2, strict=r.random() < .1, icase=r.random() < .1,
                     scope=r.random() < .1, imp=imp)


FAM["F17"] = [wrongs]
