----------------------------- MODULE CheckText -----------------------------
(* The text of a check file: which lines hold directives, and what pattern    *)
(* the text of a directive means. Everything is said of bytes.                *)
EXTENDS NumText

RECURSIVE Newlines(_, _, _)
(* b with every CRLF as an LF. *)
Newlines(b, i, acc) ==
    IF i > Len(b) THEN acc
    ELSE Newlines(b, i + 1, IF b[i] = 13 /\ i < Len(b) /\ b[i + 1] = 10 THEN acc ELSE Append(acc, b[i]))
Canonical(b, strict) ==
    LET n == IF \E i \in DOMAIN b : b[i] = 13 THEN Newlines(b, 1, <<>>) ELSE b IN
    IF strict THEN n ELSE [i \in DOMAIN n |-> IF n[i] = TAB THEN SP ELSE n[i]]

RECURSIVE TrimEnd(_, _, _), SkipDigits(_, _, _)
TrimEnd(b, s, e) == IF s < e /\ Blank(At(b, e - 1)) THEN TrimEnd(b, s, e - 1) ELSE e
SkipDigits(b, p, e) == IF p < e /\ Digit(At(b, p)) THEN SkipDigits(b, p + 1, e) ELSE p
RECURSIVE Decimal(_, _, _, _)
(* The number written in [p, e), 1000 standing for everything above. *)
Decimal(b, p, e, acc) ==
    IF p = e THEN acc
    ELSE LET v == acc * 10 + At(b, p) - 48 IN Decimal(b, p + 1, e, IF v > 1000 THEN 1000 ELSE v)

(* ------------------------------- directives ------------------------------- *)
Suffix == [plain |-> <<>>, next |-> <<45, 78, 69, 88, 84>>, same |-> <<45, 83, 65, 77, 69>>,
           not |-> <<45, 78, 79, 84>>, dag |-> <<45, 68, 65, 71>>,
           label |-> <<45, 76, 65, 66, 69, 76>>, empty |-> <<45, 69, 77, 80, 84, 89>>,
           count |-> <<45, 67, 79, 85, 78, 84, 45>>]
COLON == 58
LITERAL == <<76, 73, 84, 69, 82, 65, 76>>

(* Behind an optional list of modifiers at p: [p, lit]; p is -1 if it is not one. *)
RECURSIVE Mods(_, _, _)
Mods(b, p, e) ==
    LET q == SkipBlanks(b, p, e) IN
    IF ~Has(b, q, e, LITERAL) THEN [p |-> -1, lit |-> FALSE]
    ELSE LET r == q + Len(LITERAL) r2 == SkipBlanks(b, r, e) IN
         IF r < e /\ At(b, r) = 125 THEN [p |-> r + 1, lit |-> TRUE]
         ELSE IF r2 < e /\ At(b, r2) = 44 THEN Mods(b, r2 + 1, e)
         ELSE [p |-> -1, lit |-> FALSE]
Modifiers(b, p, e) ==
    IF p < e /\ At(b, p) = 123 THEN Mods(b, p + 1, e) ELSE [p |-> p, lit |-> FALSE]

NoDir == [t |-> "", n |-> 0, lit |-> FALSE, p |-> -1]
(* The directive with prefix w and suffix t at p: where its text begins, if it is one. *)
DirWith(b, p, e, w, t) ==
    IF ~Has(b, p, e, w \o Suffix[t]) THEN NoDir
    ELSE LET q == p + Len(w) + Len(Suffix[t])
             r == IF t = "count" THEN SkipDigits(b, q, e) ELSE q
             m == Modifiers(b, r, e) IN
         IF (t = "count" /\ r = q) \/ m.p < 0 \/ m.p >= e THEN NoDir
         ELSE IF At(b, m.p) # COLON THEN NoDir
         ELSE [t |-> t, n |-> IF t = "count" THEN Decimal(b, q, r, 0) ELSE 1, lit |-> m.lit, p |-> m.p + 1]
DirsAt(b, p, e, ws) ==
    {x \in {[w |-> i, d |-> DirWith(b, p, e, ws[i], t)] : i \in DOMAIN ws, t \in DOMAIN Suffix} : x.d.p >= 0}
CommentAt(b, p, e, ws) == \E i \in DOMAIN ws : Has(b, p, e, ws[i] \o <<COLON>>)

(* The first directive of line [p0, e) at or behind p: none if a comment comes before it. *)
RECURSIVE LexLine(_, _, _, _, _)
LexLine(b, p0, p, e, o) ==
    IF p >= e THEN [w |-> 0, d |-> NoDir, at |-> p]
    ELSE IF p > p0 /\ ~Blank(At(b, p - 1)) THEN LexLine(b, p0, p + 1, e, o)
    ELSE IF CommentAt(b, p, e, o.comments) THEN [w |-> 0, d |-> NoDir, at |-> p]
    ELSE LET ds == DirsAt(b, p, e, o.prefixes) IN
         IF ds # {} THEN LET x == CHOOSE x \in ds : TRUE IN [w |-> x.w, d |-> x.d, at |-> p] ELSE LexLine(b, p0, p + 1, e, o)

(* Where the pattern text of a directive begins whose line has [p, e) behind the colon. *)
BodyAt(b, p, e, strict) ==
    IF strict THEN LET f == IF p < e /\ At(b, e - 1) = 13 THEN e - 1 ELSE e IN
                   IF p < f /\ At(b, p) = SP THEN p + 1 ELSE p
    ELSE SkipBlanks(b, p, e)
BodyOf(b, p, e, strict) ==
    LET s == BodyAt(b, p, e, strict) IN
    IF strict THEN Slice(b, s, IF p < e /\ At(b, e - 1) = 13 THEN e - 1 ELSE e)
    ELSE Slice(b, s, TrimEnd(b, s, e))

RECURSIVE LexFrom(_, _, _, _, _)
(* All directives of b from the line beginning at p. *)
LexFrom(b, p, ln, o, acc) ==
    IF p >= Len(b) THEN acc
    ELSE LET e == Eol(b, p) x == LexLine(b, p, p, e, o) IN
         LexFrom(b, e + 1, ln + 1, o,
                 IF x.w = 0 THEN acc
                 ELSE Append(acc, [t |-> x.d.t, n |-> x.d.n, lit |-> x.d.lit, w |-> x.w, ln |-> ln,
                                   at |-> x.at, from |-> BodyAt(b, x.d.p, e, o.strict), end |-> e,
                                   body |-> BodyOf(b, x.d.p, e, o.strict)]))
Lex(b, o) == LexFrom(b, 0, 1, o, <<>>)

(* --------------------------- regular expressions --------------------------- *)
Lit1(c) == [k |-> "lit", s |-> <<c>>]
SeqOf(a) == IF Len(a) = 1 THEN a[1] ELSE [k |-> "seq", a |-> a]
SetOf(cs, neg) == [k |-> "set", c |-> cs, neg |-> neg]
Interval(x, y) == [i \in 1..(y - x + 1) |-> x + i - 1]

Word == Interval(48, 57) \o Interval(65, 90) \o <<95>> \o Interval(97, 122)
Space == <<9, 10, 11, 12, 13, 32>>
Punct(c) == c \in (33..47 \cup 58..64 \cup 91..96 \cup 123..126) \ {60, 62, 95}
(* The bytes an escaped character stands for: <<>> if that is not specified. *)
EscBytes(c) ==
    CASE c = 100 -> Interval(48, 57)
      [] c = 119 -> Word
      [] c = 115 -> Space
      [] c = 110 -> <<10>>
      [] c = 116 -> <<9>>
      [] c = 114 -> <<13>>
      [] Punct(c) -> <<c>>
      [] OTHER -> <<>>
(* Named classes by the bytes of their names. *)
Posix(w) ==
    CASE w = <<100, 105, 103, 105, 116>> -> Interval(48, 57)
      [] w = <<97, 108, 112, 104, 97>> -> Interval(65, 90) \o Interval(97, 122)
      [] w = <<97, 108, 110, 117, 109>> -> Interval(48, 57) \o Interval(65, 90) \o Interval(97, 122)
      [] w = <<115, 112, 97, 99, 101>> -> Space
      [] w = <<120, 100, 105, 103, 105, 116>> -> Interval(48, 57) \o Interval(65, 70) \o Interval(97, 102)
      [] OTHER -> <<>>
RECURSIVE SkipLower(_, _, _)
SkipLower(b, p, e) == IF p < e /\ At(b, p) \in 97..122 THEN SkipLower(b, p + 1, e) ELSE p

(* Items of a class from p, none parsed yet iff first. *)
RECURSIVE RClass(_, _, _, _, _, _)
RClass(b, p, e, neg, first, acc) ==
    IF p >= e THEN Bad
    ELSE LET c == At(b, p) IN
    IF c = 93 /\ ~first THEN Got(SetOf(acc, neg), p + 1)
    ELSE IF c = 91 THEN
        LET q == SkipLower(b, p + 2, e) IN
        IF p + 1 < e /\ At(b, p + 1) = COLON /\ Has(b, q, e, <<COLON, 93>>) /\ Posix(Slice(b, p + 2, q)) # <<>>
        THEN RClass(b, q + 2, e, neg, FALSE, acc \o Posix(Slice(b, p + 2, q)))
        ELSE Skip
    ELSE IF c >= 128 \/ (p + 1 < e /\ c \in {38, 45, 126} /\ At(b, p + 1) = c) THEN Skip
    ELSE LET esc == c = 92
             one == IF ~esc THEN <<c>> ELSE IF p + 1 < e THEN EscBytes(At(b, p + 1)) ELSE <<>>
             q == IF esc THEN p + 2 ELSE p + 1 IN
         IF esc /\ p + 1 >= e THEN Bad
         ELSE IF one = <<>> THEN Skip
         ELSE IF q + 1 < e /\ At(b, q) = 45 /\ At(b, q + 1) # 93 THEN
              LET d == At(b, q + 1) IN
              IF Len(one) # 1 \/ d \in {91, 92} \/ d >= 128 THEN Skip
              ELSE IF d < one[1] THEN Bad
              ELSE RClass(b, q + 2, e, neg, FALSE, acc \o Interval(one[1], d))
         ELSE RClass(b, q, e, neg, FALSE, acc \o one)

RECURSIVE Nested(_, _)
(* At most n more of x. *)
Nested(x, n) == IF n = 0 THEN [k |-> "seq", a |-> <<>>] ELSE [k |-> "opt", x |-> [k |-> "seq", a |-> <<x, Nested(x, n - 1)>>]]
Copies(x, n) == [i \in 1..n |-> x]

RECURSIVE RAlt(_, _, _, _), RSeq(_, _, _, _), RQuant(_, _, _, _)
RAtom(b, p, e) ==
    LET c == At(b, p) IN
    CASE c = 46 -> Got(SetOf(<<10>>, TRUE), p + 1)
      [] c = 94 -> Got([k |-> "bol"], p + 1)
      [] c = 36 -> Got([k |-> "eol"], p + 1)
      [] c = 40 ->
            IF p + 1 < e /\ At(b, p + 1) = 63 /\ ~Has(b, p, e, <<40, 63, 58>>) THEN Skip
            ELSE LET x == RAlt(b, IF Has(b, p, e, <<40, 63, 58>>) THEN p + 3 ELSE p + 1, e, <<>>) IN
                 IF x.st # "ok" THEN x
                 ELSE IF x.p < e THEN Got(x.r, x.p + 1) ELSE Bad
      [] c = 91 ->
            LET neg == p + 1 < e /\ At(b, p + 1) = 94 IN
            RClass(b, IF neg THEN p + 2 ELSE p + 1, e, neg, TRUE, <<>>)
      [] c = 92 ->
            IF p + 1 >= e THEN Bad
            ELSE LET w == EscBytes(At(b, p + 1)) IN
                 IF w = <<>> THEN Skip
                 ELSE Got(IF Len(w) = 1 THEN Lit1(w[1]) ELSE SetOf(w, FALSE), p + 2)
      [] c \in {42, 43, 63} -> Bad
      [] c = 123 -> Skip
      [] OTHER -> Got(Lit1(c), p + 1)
RQuant(b, x, p, e) ==
    IF p >= e THEN Got(x, p)
    ELSE LET c == At(b, p) IN
    IF c \in {42, 43, 63} THEN
        IF p + 1 < e /\ At(b, p + 1) = 63 THEN Skip
        ELSE RQuant(b, [k |-> CASE c = 42 -> "star" [] c = 43 -> "plus" [] c = 63 -> "opt", x |-> x], p + 1, e)
    ELSE IF c = 123 THEN
        LET q == SkipDigits(b, p + 1, e)
            lo == Decimal(b, p + 1, q, 0)
            comma == q < e /\ At(b, q) = 44
            q2 == IF comma THEN SkipDigits(b, q + 1, e) ELSE q
            hi == IF ~comma THEN lo ELSE IF q2 = q + 1 THEN -1 ELSE Decimal(b, q + 1, q2, 0) IN
        IF q = p + 1 \/ q2 >= e THEN (IF q2 >= e THEN Bad ELSE Skip)
        ELSE IF At(b, q2) # 125 THEN Bad
        ELSE IF lo > 4 \/ hi > 4 \/ (q2 + 1 < e /\ At(b, q2 + 1) = 63) THEN Skip
        ELSE IF hi >= 0 /\ hi < lo THEN Bad
        ELSE RQuant(b, [k |-> "seq", a |-> Append(Copies(x, lo), IF hi < 0 THEN [k |-> "star", x |-> x] ELSE Nested(x, hi - lo))],
                    q2 + 1, e)
    ELSE Got(x, p)
RSeq(b, p, e, acc) ==
    IF p >= e \/ At(b, p) \in {41, 124} THEN Got(SeqOf(acc), p)
    ELSE LET x == RAtom(b, p, e) IN
         IF x.st # "ok" THEN x
         ELSE LET y == RQuant(b, x.r, x.p, e) IN
              IF y.st # "ok" THEN y ELSE RSeq(b, y.p, e, Append(acc, y.r))
RAlt(b, p, e, acc) ==
    LET x == RSeq(b, p, e, <<>>) IN
    IF x.st # "ok" THEN x
    ELSE IF x.p < e /\ At(b, x.p) = 124 THEN RAlt(b, x.p + 1, e, Append(acc, x.r))
    ELSE Got(IF acc = <<>> THEN x.r ELSE [k |-> "alt", a |-> Append(acc, x.r)], x.p)
(* The whole of b as a regular expression. *)
Regex(b) == LET x == RAlt(b, 0, Len(b), <<>>) IN
            IF x.st = "ok" /\ x.p < Len(b) THEN Bad ELSE x

(* -------------------------------- patterns --------------------------------- *)
Open2 == <<91, 91>>
Open3 == <<123, 123>>
RECURSIVE NextOpen(_, _)
(* The first block opened at or behind p. [[ does not open one right before another [. *)
NextOpen(b, p) ==
    IF p + 2 > Len(b) THEN -1
    ELSE IF Has(b, p, Len(b), Open3) THEN p
    ELSE IF Has(b, p, Len(b), Open2) /\ ~(p + 2 < Len(b) /\ At(b, p + 2) = 91) THEN p
    ELSE NextOpen(b, p + 1)
RECURSIVE RegexEnd(_, _), MatchEnd(_, _, _)
RegexEnd(b, p) == IF p + 2 > Len(b) THEN -1 ELSE IF Has(b, p, Len(b), <<125, 125>>) THEN p ELSE RegexEnd(b, p + 1)
(* The ]] that closes a block, d character classes being open at p. *)
MatchEnd(b, p, d) ==
    IF p >= Len(b) THEN -1
    ELSE IF d = 0 /\ Has(b, p, Len(b), <<93, 93>>) THEN p
    ELSE LET c == At(b, p) IN
    CASE c = 92 -> MatchEnd(b, p + 2, d)
      [] c = 91 -> LET q == IF p + 1 < Len(b) /\ At(b, p + 1) = 94 THEN p + 2 ELSE p + 1 IN
                   MatchEnd(b, IF q < Len(b) /\ At(b, q) = 93 THEN q + 1 ELSE q, d + 1)
      [] c = 93 -> MatchEnd(b, p + 1, IF d > 0 THEN d - 1 ELSE 0)
      [] OTHER -> MatchEnd(b, p + 1, d)

(* What stands between [[ and ]]. *)
Block(w, ln) ==
    LET p == SkipBlanks(w, 0, Len(w))
        q == IF p < Len(w) /\ At(w, p) = 36 THEN p + 1 ELSE p
        r == SkipName(w, q)
        t == SkipBlanks(w, r, Len(w)) IN
    IF w = <<>> THEN Bad
    ELSE IF At(w, 0) = 35 THEN NumBlock(Tail(w), ln)
    ELSE IF p < Len(w) /\ At(w, p) = 35 THEN Skip
    ELSE IF p < Len(w) /\ At(w, p) = 64 THEN LineBlock(w, ln)
    ELSE IF q >= Len(w) THEN Bad
    ELSE IF ~NameStart(At(w, q)) THEN Bad
    ELSE IF t = Len(w) THEN Got([k |-> "use", n |-> Name(Slice(w, p, r))], 0)
    ELSE IF At(w, t) # COLON THEN Bad
    ELSE LET x == Regex(Slice(w, t + 1, Len(w))) IN
         IF x.st # "ok" THEN x ELSE Got([k |-> "def", n |-> Name(Slice(w, p, r)), x |-> x.r], 0)

LitPiece(w) == IF w = <<>> THEN <<>> ELSE <<[k |-> "lit", s |-> w]>>
RECURSIVE Pieces(_, _, _, _)
Pieces(b, p, ln, acc) ==
    LET q == NextOpen(b, p) IN
    IF q < 0 THEN Got(acc \o LitPiece(Slice(b, p, Len(b))), 0)
    ELSE LET re == At(b, q) = 123
             e == IF re THEN RegexEnd(b, q + 2) ELSE MatchEnd(b, q + 2, 0) IN
         IF e < 0 THEN Bad
         ELSE LET w == Slice(b, q + 2, e)
                  x == IF re THEN Regex(w) ELSE Block(w, ln) IN
              IF x.st # "ok" THEN x
              ELSE Pieces(b, e + 2, ln, acc \o LitPiece(Slice(b, p, q)) \o <<x.r>>)

(* A variable defined twice in a pattern: see known_findings.txt. *)
OneDef(x) ==
    IF x.st = "ok" /\ \E i, j \in DOMAIN x.r : i < j /\ {x.r[i].k, x.r[j].k} \subseteq {"def", "num"} /\ x.r[i].n = x.r[j].n /\ x.r[i].n # ""
    THEN Skip ELSE x

(* The pattern of a directive. Blanks alone are none, except in literal text (--strict-whitespace). *)
PatternOf(t, body, literal, ln) ==
    LET none == body = <<>> \/ (~literal /\ SkipBlanks(body, 0, Len(body)) = Len(body)) IN
    IF t = "empty" THEN (IF none THEN Got(<<>>, 0) ELSE Bad)
    ELSE IF none THEN Bad
    ELSE IF literal THEN Got(<<[k |-> "lit", s |-> body]>>, 0)
    ELSE OneDef(Pieces(body, 0, ln, <<>>))

Worst(sts) == IF "err" \in sts THEN "err" ELSE IF "skip" \in sts THEN "skip" ELSE "ok"

(* The check file b with options o: its directives, and whether it can be used. *)
ReadChecks(b, o) ==
    LET ls == Lex(Canonical(b, o.strict), o)
        ps == [i \in DOMAIN ls |-> PatternOf(ls[i].t, ls[i].body, ls[i].lit, ls[i].ln)]
        counts == \A i \in DOMAIN ls : ls[i].n \in 1..255
        unused == \E w \in DOMAIN o.prefixes : \A i \in DOMAIN ls : ls[i].w # w
        st == IF ls = <<>> \/ ~counts \/ (unused /\ ~o.allowunused) THEN "err"
              ELSE Worst({ps[i].st : i \in DOMAIN ps}) IN
    [st |-> st,
     ds |-> IF st # "ok" THEN <<>>
            ELSE [i \in DOMAIN ls |-> [t |-> ls[i].t, n |-> ls[i].n, ln |-> ls[i].ln, ps |-> ps[i].r]]]
=============================================================================
