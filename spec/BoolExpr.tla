------------------------------ MODULE BoolExpr ------------------------------
(* Feature expressions: the texts that are one, and what they say of a set of  *)
(* features. Text is bytes; a feature is a name, given by its bytes.           *)
EXTENDS CheckText, Pattern

IdentByte(c) == c \in (48..57 \cup 65..90 \cup 97..122 \cup {43, 45, 46, 61, 95})
TRUEWORD == <<116, 114, 117, 101>>
FALSEWORD == <<102, 97, 108, 115, 101>>

(* ---------------------------------- words ---------------------------------- *)
RECURSIVE IdentEnd(_, _), BraceEnd(_, _)
IdentEnd(b, p) == IF p < Len(b) /\ IdentByte(At(b, p)) THEN IdentEnd(b, p + 1) ELSE p
BraceEnd(b, p) == IF p < Len(b) /\ At(b, p) # 125 THEN BraceEnd(b, p + 1) ELSE p

Tok(k, v) == [k |-> k, v |-> v]
RECURSIVE Words(_, _, _)
(* The words of b from p on behind acc: st is "err" if some text is no word. *)
Words(b, p, acc) ==
    IF p >= Len(b) THEN [st |-> "ok", w |-> acc]
    ELSE LET c == At(b, p) IN
    CASE Blank(c) -> Words(b, p + 1, acc)
      [] c = 40 -> Words(b, p + 1, Append(acc, Tok("(", <<>>)))
      [] c = 41 -> Words(b, p + 1, Append(acc, Tok(")", <<>>)))
      [] c = 33 -> Words(b, p + 1, Append(acc, Tok("!", <<>>)))
      [] c = 38 /\ Has(b, p, Len(b), <<38, 38>>) -> Words(b, p + 2, Append(acc, Tok("&&", <<>>)))
      [] c = 124 /\ Has(b, p, Len(b), <<124, 124>>) -> Words(b, p + 2, Append(acc, Tok("||", <<>>)))
      [] IdentByte(c) -> LET e == IdentEnd(b, p) IN Words(b, e, Append(acc, Tok("id", Slice(b, p, e))))
      [] c = 123 /\ Has(b, p, Len(b), <<123, 123>>) ->
            LET e == BraceEnd(b, p + 2) IN
            IF e > p + 2 /\ Has(b, e, Len(b), <<125, 125>>)
            THEN Words(b, e + 2, Append(acc, Tok("rx", Slice(b, p + 2, e))))
            ELSE [st |-> IF e < Len(b) /\ e > p + 2 THEN "skip" ELSE "err", w |-> acc]
      [] OTHER -> [st |-> "err", w |-> acc]

(* ------------------------------- expressions ------------------------------- *)
(* Parsers give [st, x, i]: the expression and the number of words read.       *)
EBad == [st |-> "err", x |-> <<>>, i |-> 0]
ESkip == [st |-> "skip", x |-> <<>>, i |-> 0]
EGot(x, i) == [st |-> "ok", x |-> x, i |-> i]
Is(w, i, k) == i <= Len(w) /\ w[i].k = k
IsName(w, i) == Is(w, i, "id") \/ Is(w, i, "rx")
RECURSIVE NamesEnd(_, _)
NamesEnd(w, i) == IF IsName(w, i) THEN NamesEnd(w, i + 1) ELSE i

(* Names and patterns written one behind the other are one pattern. *)
Part(t) ==
    IF t.k = "id" THEN Got([k |-> "lit", s |-> t.v], 0)
    ELSE LET r == RAlt(t.v, 0, Len(t.v), <<>>) IN
         IF r.st # "ok" \/ r.p = Len(t.v) THEN r ELSE Bad
NameExpr(w, i) ==
    LET e == NamesEnd(w, i) IN
    IF \A j \in i..(e - 1) : w[j].k = "id" THEN
        IF e > i + 1 THEN EBad
        ELSE EGot(CASE w[i].v = TRUEWORD -> [k |-> "lit", v |-> TRUE]
                    [] w[i].v = FALSEWORD -> [k |-> "lit", v |-> FALSE]
                    [] OTHER -> [k |-> "var", n |-> w[i].v], e)
    ELSE LET ps == [j \in 1..(e - i) |-> Part(w[i + j - 1])] IN
         IF \E j \in DOMAIN ps : ps[j].st = "skip" THEN ESkip
         ELSE IF \E j \in DOMAIN ps : ps[j].st = "err" THEN EBad
         ELSE EGot([k |-> "rx", r |-> [k |-> "seq", a |-> [j \in DOMAIN ps |-> ps[j].r]]], e)

RECURSIVE POr(_, _), PAnd(_, _), PNot(_, _), OrRest(_, _), AndRest(_, _)
PNot(w, i) ==
    IF Is(w, i, "!") THEN
        LET x == PNot(w, i + 1) IN IF x.st = "ok" THEN EGot([k |-> "not", a |-> x.x], x.i) ELSE x
    ELSE IF Is(w, i, "(") THEN
        LET x == POr(w, i + 1) IN
        IF x.st # "ok" THEN x ELSE IF Is(w, x.i, ")") THEN EGot(x.x, x.i + 1) ELSE EBad
    ELSE IF IsName(w, i) THEN NameExpr(w, i)
    ELSE EBad
AndRest(w, l) ==
    IF l.st = "ok" /\ Is(w, l.i, "&&") THEN
        LET r == PNot(w, l.i + 1) IN
        IF r.st = "ok" THEN AndRest(w, EGot([k |-> "and", a |-> l.x, b |-> r.x], r.i)) ELSE r
    ELSE l
PAnd(w, i) == AndRest(w, PNot(w, i))
OrRest(w, l) ==
    IF l.st = "ok" /\ Is(w, l.i, "||") THEN
        LET r == PAnd(w, l.i + 1) IN
        IF r.st = "ok" THEN OrRest(w, EGot([k |-> "or", a |-> l.x, b |-> r.x], r.i)) ELSE r
    ELSE l
POr(w, i) == OrRest(w, PAnd(w, i))

(* The expression of a text. *)
ReadExpr(b) ==
    LET t == Words(b, 0, <<>>) IN
    IF t.st = "skip" THEN ESkip
    ELSE LET x == POr(t.w, 1) IN
         IF t.st = "err" THEN EBad
         ELSE IF x.st # "ok" THEN x ELSE IF x.i = Len(t.w) + 1 THEN x ELSE EBad

(* --------------------------------- meaning --------------------------------- *)
Occurs(r, f) == \E p \in 0..Len(f) : RM(r, f, p, Len(f), FALSE) # <<>>
RECURSIVE Truth(_, _)
Truth(x, fs) ==
    CASE x.k = "lit" -> x.v
      [] x.k = "var" -> x.n \in fs
      [] x.k = "rx" -> \E f \in fs : Occurs(x.r, f)
      [] x.k = "not" -> ~Truth(x.a, fs)
      [] x.k = "and" -> Truth(x.a, fs) /\ Truth(x.b, fs)
      [] x.k = "or" -> Truth(x.a, fs) \/ Truth(x.b, fs)

(* The text with the fewest brackets that means x when not binds tighter than   *)
(* and, and and tighter than or.                                                *)
Level(x) == CASE x.k = "or" -> 1 [] x.k = "and" -> 2 [] OTHER -> 3
RECURSIVE Write(_, _)
Write(x, at) ==
    LET t == CASE x.k = "lit" -> IF x.v THEN TRUEWORD ELSE FALSEWORD
               [] x.k = "var" -> x.n
               [] x.k = "not" -> <<33>> \o Write(x.a, 3)
               [] x.k = "and" -> Write(x.a, 2) \o <<38, 38>> \o Write(x.b, 3)
               [] x.k = "or" -> Write(x.a, 1) \o <<124, 124>> \o Write(x.b, 2) IN
    IF Level(x) < at THEN <<40>> \o t \o <<41>> ELSE t
=============================================================================
