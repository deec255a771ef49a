----------------------------- MODULE ShScript -----------------------------
(* The scripts of tests: what the text of a test file says, what its           *)
(* placeholders stand for, and what the shell makes of its run lines.          *)
(* Texts are sequences of code points.                                         *)
EXTENDS Integers, Sequences, FiniteSets, BoolExpr

Spaces == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202

RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in Spaces THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Spaces THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

(* w stands at place p of s (the first place is 1) *)
Stands(s, p, w) == p + Len(w) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(w) - 1) = w
Behind(s, p) == SubSeq(s, p, Len(s))
Contains(s, w) == \E p \in 1..(Len(s) + 1) : Stands(s, p, w)

RECURSIVE Split(_, _, _, _)
(* the parts of s between separators c, from place p, where b is the begin of the part *)
Split(s, c, p, b) ==
    IF p > Len(s) THEN <<SubSeq(s, b, Len(s))>>
    ELSE IF s[p] = c THEN <<SubSeq(s, b, p - 1)>> \o Split(s, c, p + 1, p + 1)
    ELSE Split(s, c, p + 1, b)

BSL == 92
(* A line ends at a newline, which a carriage return may precede. *)
NoCr(l) == IF l # <<>> /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
LinesOf(s) ==
    LET ls == Split(s, NL, 1, 1)
        n == IF ls[Len(ls)] = <<>> THEN Len(ls) - 1 ELSE Len(ls) IN
    [i \in 1..n |-> NoCr(ls[i])]

(* -------------------------------- directives -------------------------------- *)
KDEFINE == <<68, 69, 70, 73, 78, 69, 58>>
KREDEFINE == <<82, 69>> \o KDEFINE
KREQUIRES == <<82, 69, 81, 85, 73, 82, 69, 83, 58>>
KRUN == <<82, 85, 78, 58>>
KUNSUPPORTED == <<85, 78, 83, 85, 80, 80, 79, 82, 84, 69, 68, 58>>
KXFAIL == <<88, 70, 65, 73, 76, 58>>
KRETRIES == <<65, 76, 76, 79, 87, 69, 68, 95, 82, 69, 84, 82, 73, 69, 83, 58>>
KEND == <<69, 78, 68, 46>>
Keywords == [define |-> KDEFINE, redefine |-> KREDEFINE, requires |-> KREQUIRES, run |-> KRUN,
             unsupported |-> KUNSUPPORTED, xfail |-> KXFAIL, retries |-> KRETRIES, end |-> KEND]
Kinds == DOMAIN Keywords

NoDirective == [k |-> "none", c |-> <<>>]
RECURSIVE DirectiveFrom(_, _)
DirectiveFrom(l, p) ==
    IF p > Len(l) THEN NoDirective
    ELSE IF \E k \in Kinds : Stands(l, p, Keywords[k])
         THEN LET k == CHOOSE x \in Kinds : Stands(l, p, Keywords[x]) IN
              [k |-> k, c |-> Behind(l, p + Len(Keywords[k]))]
         ELSE DirectiveFrom(l, p + 1)
(* What stands on a line is told by the first keyword in it, wherever that is. *)
DirectiveOf(l) == DirectiveFrom(l, 1)

(* ------------------------------- line numbers ------------------------------- *)
LINE == <<37, 40, 108, 105, 110, 101>>     \* %(line
RECURSIVE SpacesBehind(_, _)
SpacesBehind(s, p) == IF p <= Len(s) /\ s[p] = SP THEN SpacesBehind(s, p + 1) ELSE p
RECURSIVE DigitsBehind(_, _)
DigitsBehind(s, p) == IF p <= Len(s) /\ Digit(s[p]) THEN DigitsBehind(s, p + 1) ELSE p
RECURSIVE NatOf(_)
NatOf(ds) == IF ds = <<>> THEN 0 ELSE 10 * NatOf(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)] - 48
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n + 48>> ELSE DigitsOf(n \div 10) \o <<(n % 10) + 48>>

NoRef == [st |-> "no", p |-> 0, n |-> 0]
(* A reference to line n's number at place p: where it ends, and its value *)
LineRef(s, p, n) ==
    IF ~Stands(s, p, LINE) THEN NoRef
    ELSE LET q == p + Len(LINE) IN
         IF q <= Len(s) /\ s[q] = 41 THEN [st |-> "ok", p |-> q + 1, n |-> n]
         ELSE LET sg == SpacesBehind(s, q) IN
              IF sg > Len(s) \/ s[sg] \notin {43, 45} THEN NoRef
              ELSE LET d == SpacesBehind(s, sg + 1)
                       e == DigitsBehind(s, d) IN
                   IF e = d \/ e > Len(s) \/ s[e] # 41 THEN NoRef
                   ELSE IF e - d > 8 THEN [st |-> "big", p |-> e + 1, n |-> 0]
                   ELSE LET v == NatOf(SubSeq(s, d, e - 1)) IN
                        [st |-> "ok", p |-> e + 1,
                         n |-> IF s[sg] = 43 THEN n + v ELSE IF v > n THEN 0 ELSE n - v]
RECURSIVE Numbered(_, _, _)
(* s with the references to line numbers behind place p replaced, on line n *)
Numbered(s, p, n) ==
    IF p > Len(s) THEN <<>>
    ELSE LET r == LineRef(s, p, n) IN
         IF r.st = "ok" THEN DigitsOf(r.n) \o Numbered(s, r.p, n)
         ELSE <<s[p]>> \o Numbered(s, p + 1, n)
(* beyond what is specified: offsets of more than eight digits *)
BigRef(s, n) == \E p \in 1..Len(s) : LineRef(s, p, n).st = "big"

(* --------------------------------- scripts ---------------------------------- *)
(* What a test file says; bad when it says something wrong *)
Empty == [bad |-> FALSE, skip |-> FALSE, cmds |-> <<>>, req |-> <<>>, unsup |-> <<>>, xfail |-> <<>>, retries |-> -1]
Wrong(a) == [a EXCEPT !.bad = TRUE]
Aside(a) == [a EXCEPT !.skip = TRUE]

Cont(c) == c # <<>> /\ c[Len(c)] = BSL
Init1(c) == SubSeq(c, 1, Len(c) - 1)

NameC(c) == c \in 65..90 \cup 97..122 \cup {95}
NameR(c) == NameC(c) \/ Digit(c) \/ c \in {45, 58}
(* %{name} *)
Braced(k) ==
    /\ Len(k) >= 4 /\ k[1] = 37 /\ k[2] = 123 /\ k[Len(k)] = 125
    /\ NameC(k[3]) /\ \A i \in 4..(Len(k) - 1) : NameR(k[i])

RECURSIVE Join(_, _, _, _, _, _)
(* The text of a directive that goes on behind line i: kind k, text t so far.   *)
(* Parts of a run line are joined as they are, others by one blank.             *)
Join(ls, i, k, t, bad, skip) ==
    IF i > Len(ls) THEN [t |-> t, i |-> i, bad |-> bad, skip |-> skip]
    ELSE LET d == DirectiveOf(ls[i])
             c == IF d.k = "none" THEN ls[i] ELSE d.c
             wrong == d.k # k
             more == Cont(c)
             part == IF k = "run" THEN (IF more THEN Init1(c) ELSE TrimR(c))
                     ELSE Trim(IF more THEN Init1(c) ELSE c)
             u == t \o (IF k = "run" THEN <<BSL, NL>> ELSE <<SP>>) \o Numbered(part, 1, i)
             sk == skip \/ BigRef(part, i) IN
         IF more THEN Join(ls, i + 1, k, u, bad \/ wrong, sk)
         ELSE [t |-> u, i |-> i + 1, bad |-> bad \/ wrong, skip |-> sk]
(* The text of the directive on line i *)
Whole(ls, i, d) ==
    LET more == Cont(d.c)
        part == TrimL(IF more THEN Init1(d.c) ELSE TrimR(d.c))
        t == Numbered(part, 1, i) IN
    IF more THEN Join(ls, i + 1, d.k, t, FALSE, BigRef(part, i))
    ELSE [t |-> t, i |-> i + 1, bad |-> FALSE, skip |-> BigRef(part, i)]

STAR == <<42>>
RECURSIVE Conditions(_, _)
(* The conditions of a comma separated list, added to those in l; the list is not *)
(* meant to be read when one of them is wrong.                                   *)
Conditions(ps, l) ==
    IF ps = <<>> THEN [st |-> "ok", l |-> l]
    ELSE LET p == Trim(Head(ps))
             e == IF p = STAR THEN EGot([k |-> "lit", v |-> TRUE], 0) ELSE ReadExpr(p)
             r == Conditions(Tail(ps), IF e.st = "ok" THEN Append(l, e.x) ELSE l) IN
         IF e.st = "ok" THEN r
         ELSE IF e.st = "skip" \/ r.st = "skip" THEN [st |-> "skip", l |-> <<>>]
         ELSE [st |-> "err", l |-> <<>>]

FirstEq(t) == CHOOSE p \in 1..Len(t) : t[p] = 61 /\ \A q \in 1..(p - 1) : t[q] # 61
Plus(s) == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s

RECURSIVE ReadFrom(_, _, _)
(* Lines i and on of ls, where a is what was said before *)
ReadFrom(ls, i, a) ==
    IF i > Len(ls) THEN a
    ELSE LET d == DirectiveOf(ls[i]) IN
    CASE d.k = "none" -> ReadFrom(ls, i + 1, a)
      [] d.k = "end" -> IF Trim(d.c) = <<>> THEN a ELSE ReadFrom(ls, i + 1, a)
      [] d.k = "run" ->
            LET w == Whole(ls, i, d)
                b == [a EXCEPT !.bad = @ \/ w.bad, !.skip = @ \/ w.skip,
                               !.cmds = Append(@, [k |-> "run", t |-> w.t, n |-> i])] IN
            ReadFrom(ls, w.i, b)
      [] d.k \in {"define", "redefine"} ->
            LET w == Whole(ls, i, d)
                b == [a EXCEPT !.bad = @ \/ w.bad, !.skip = @ \/ w.skip] IN
            IF \A p \in 1..Len(w.t) : w.t[p] # 61 THEN ReadFrom(ls, w.i, Aside(b))
            ELSE LET p == FirstEq(w.t)
                     k == Trim(SubSeq(w.t, 1, p - 1))
                     v == Trim(Behind(w.t, p + 1)) IN
                 IF ~Braced(k) THEN ReadFrom(ls, w.i, Wrong(b))
                 ELSE ReadFrom(ls, w.i, [b EXCEPT !.cmds = Append(@, [k |-> d.k, key |-> k, v |-> v])])
      [] d.k = "retries" ->
            LET v == Trim(d.c)
                n == Plus(v) IN
            IF a.retries >= 0 THEN ReadFrom(ls, i + 1, Wrong(a))
            ELSE IF n = <<>> \/ \E q \in 1..Len(n) : ~Digit(n[q]) THEN ReadFrom(ls, i + 1, Wrong(a))
            ELSE IF Len(n) > 8 THEN ReadFrom(ls, i + 1, Aside(a))
            ELSE ReadFrom(ls, i + 1, [a EXCEPT !.retries = NatOf(n)])
      [] OTHER ->
            LET cs == Conditions(Split(d.c, 44, 1, 1), <<>>)
                b == CASE cs.st = "skip" -> Aside(a)
                       [] cs.st = "err" -> Wrong(a)
                       [] d.k = "requires" -> [a EXCEPT !.req = @ \o cs.l]
                       [] d.k = "unsupported" -> [a EXCEPT !.unsup = @ \o cs.l]
                       [] d.k = "xfail" -> [a EXCEPT !.xfail = @ \o cs.l] IN
            ReadFrom(ls, i + 1, b)

ReadScript(text) ==
    LET s == ReadFrom(LinesOf(text), 1, Empty) IN
    IF \E i \in DOMAIN s.cmds : s.cmds[i].k = "run" THEN s ELSE Wrong(s)

(* ------------------------------- placeholders ------------------------------- *)
(* A percent sign that is meant as such. No text of the outside has this one.   *)
PERCENT == 57344
RECURSIVE Replaced(_, _, _, _)
(* s with every k from place p on replaced by v *)
Replaced(s, p, k, v) ==
    IF p > Len(s) THEN <<>>
    ELSE IF Stands(s, p, k) THEN v \o Replaced(s, p + Len(k), k, v)
    ELSE <<s[p]>> \o Replaced(s, p + 1, k, v)
Doubled(s) == Replaced(s, 1, <<37, 37>>, <<PERCENT>>)

(* The space of the regular expression \s *)
RECURSIVE WordReplaced(_, _, _, _)
(* s with every one of the words ws that stands alone replaced by v *)
WordReplaced(s, p, ws, v) ==
    IF p > Len(s) THEN <<>>
    ELSE LET at(b) == {w \in ws : Stands(s, b, w) /\ (b + Len(w) > Len(s) \/ s[b + Len(w)] \in Spaces)}
             b == IF p = 1 /\ at(1) # {} THEN 1 ELSE IF s[p] \in Spaces /\ at(p + 1) # {} THEN p + 1 ELSE 0 IN
         IF b = 0 THEN <<s[p]>> \o WordReplaced(s, p + 1, ws, v)
         ELSE LET w == CHOOSE x \in at(b) : TRUE
                  e == b + Len(w) IN
              SubSeq(s, p, b - 1) \o v \o (IF e <= Len(s) THEN <<s[e]>> ELSE <<>>)
                  \o WordReplaced(s, e + 1, ws, v)

(* Substitutions: [k |-> its key, m |-> the text it replaces, v |-> by what,        *)
(*                 w |-> or else the words it replaces where they stand alone]      *)
RECURSIVE ExpandAll(_, _)
ExpandAll(s, subs) ==
    IF subs = <<>> THEN Doubled(s)
    ELSE LET x == Head(subs)
             d == Doubled(s) IN
         ExpandAll(IF x.w = {} THEN Replaced(d, 1, x.m, x.v) ELSE WordReplaced(d, 1, x.w, x.v), Tail(subs))
(* What a run line becomes: every placeholder in scope replaced, in order *)
Expand(s, subs) ==
    LET e == ExpandAll(s, subs) IN [i \in DOMAIN e |-> IF e[i] = PERCENT THEN 37 ELSE e[i]]

(* The scope of a test: what it defined itself, latest first, before what it was given *)
HasKey(subs, k) == \E i \in DOMAIN subs : subs[i].k = k
SetKey(subs, k, v) == [i \in DOMAIN subs |-> IF subs[i].k = k THEN [subs[i] EXCEPT !.v = v] ELSE subs[i]]
(* Given subs, and then more, a later value of a key taking the place of the earlier *)
RECURSIVE Over(_, _)
Over(subs, more) ==
    IF more = <<>> THEN subs
    ELSE LET m == Head(more) IN
         Over(IF HasKey(subs, m.k)
              THEN [i \in DOMAIN subs |-> IF subs[i].k = m.k THEN [subs[i] EXCEPT !.v = m.v] ELSE subs[i]]
              ELSE Append(subs, m), Tail(more))

(* The commands of a script with the substitutions given, or an error *)
RECURSIVE ExpandedFrom(_, _, _, _)
ExpandedFrom(cmds, own, given, acc) ==
    IF cmds = <<>> THEN [bad |-> FALSE, cmds |-> acc]
    ELSE LET c == Head(cmds) IN
         IF c.k = "run" THEN ExpandedFrom(Tail(cmds), own, given, Append(acc, Expand(c.t, own \o given)))
         ELSE LET has == HasKey(own \o given, c.key)
                  conflict == has /\ \E i \in DOMAIN given : given[i].k # c.key /\ Contains(given[i].k, c.key) IN
              IF conflict \/ (has <=> c.k = "define") THEN [bad |-> TRUE, cmds |-> acc]
              ELSE IF HasKey(given, c.key) THEN ExpandedFrom(Tail(cmds), own, SetKey(given, c.key, c.v), acc)
              ELSE IF has THEN ExpandedFrom(Tail(cmds), SetKey(own, c.key, c.v), given, acc)
              ELSE ExpandedFrom(Tail(cmds), <<[k |-> c.key, m |-> c.key, v |-> c.v, w |-> {}]>> \o own, given, acc)
Expanded(s, given) == ExpandedFrom(s.cmds, <<>>, given, <<>>)

(* ----------------------------------- shell ----------------------------------- *)
(* The part of the shell's language that is specified: words, quoted or not, and *)
(* lists of commands.                                                            *)
Plain(c) == NameC(c) \/ Digit(c) \/ c \in {37, 43, 44, 45, 46, 47, 58, 61, 64, 123, 125} \/ c > 127
RECURSIVE WordsFrom(_, _, _, _, _)
(* from place p; cur is the word begun (none when ~on), quoted TRUE in quotes *)
WordsFrom(s, p, acc, cur, st) ==
    LET done == IF st.on THEN Append(acc, [q |-> st.was, w |-> cur]) ELSE acc IN
    IF p > Len(s) THEN IF st.quoted THEN [st |-> "skip", ws |-> <<>>] ELSE [st |-> "ok", ws |-> done]
    ELSE IF st.quoted
         THEN IF s[p] = 39 THEN WordsFrom(s, p + 1, acc, cur, [st EXCEPT !.quoted = FALSE])
              ELSE WordsFrom(s, p + 1, acc, Append(cur, s[p]), st)
    ELSE IF s[p] = 39 THEN WordsFrom(s, p + 1, acc, cur, [on |-> TRUE, was |-> TRUE, quoted |-> TRUE])
    ELSE IF s[p] = BSL /\ p < Len(s) /\ s[p + 1] = NL THEN WordsFrom(s, p + 2, acc, cur, st)
    ELSE IF s[p] \in {SP, TAB} THEN WordsFrom(s, p + 1, done, <<>>, [on |-> FALSE, was |-> FALSE, quoted |-> FALSE])
    ELSE IF Plain(s[p]) \/ s[p] \in {59, 38, 124} THEN WordsFrom(s, p + 1, acc, Append(cur, s[p]), [st EXCEPT !.on = TRUE])
    ELSE [st |-> "skip", ws |-> <<>>]
ShellWords(s) == WordsFrom(s, 1, <<>>, <<>>, [on |-> FALSE, was |-> FALSE, quoted |-> FALSE])

OpThen == <<59>>
OpAnd == <<38, 38>>
OpOr == <<124, 124>>
IsOp(x) == ~x.q /\ x.w \in {OpThen, OpAnd, OpOr}
Clean(x) == x.q \/ \A i \in DOMAIN x.w : Plain(x.w[i])
RECURSIVE ListFrom(_, _, _, _)
(* The list of commands in words ws: [o |-> how it follows the one before, a |-> its words] *)
ListFrom(ws, o, cur, acc) ==
    LET done == Append(acc, [o |-> o, a |-> cur]) IN
    IF ws = <<>> THEN IF cur = <<>> THEN [st |-> "skip", l |-> <<>>] ELSE [st |-> "ok", l |-> done]
    ELSE LET x == Head(ws) IN
         IF IsOp(x) THEN IF cur = <<>> THEN [st |-> "skip", l |-> <<>>] ELSE ListFrom(Tail(ws), x.w, <<>>, done)
         ELSE IF ~Clean(x) THEN [st |-> "skip", l |-> <<>>]
         ELSE ListFrom(Tail(ws), o, Append(cur, x.w), acc)
CommandList(s) ==
    LET w == ShellWords(s) IN
    IF w.st = "skip" THEN [st |-> "skip", l |-> <<>>] ELSE ListFrom(w.ws, OpThen, <<>>, <<>>)
=============================================================================
