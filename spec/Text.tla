-------------------------------- MODULE Text --------------------------------
(* Text as a sequence of byte codes, offsets counted from 0, and the pattern  *)
(* language of check directives given by its denotation: for every offset,    *)
(* the matches of a pattern starting there, in order of preference.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NL == 10
CR == 13
SP == 32
TAB == 9

At(s, p) == s[p + 1]                       \* the byte at offset p
Slice(s, a, b) == SubSeq(s, a + 1, b)      \* the bytes of [a, b)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Offset of the first line end at or after p (the end of the text if none). *)
RECURSIVE Eol(_, _)
Eol(s, p) == IF p >= Len(s) THEN Len(s) ELSE IF At(s, p) = NL THEN p ELSE Eol(s, p + 1)

(* Offset at which the line holding offset p begins. *)
RECURSIVE Bol(_, _)
Bol(s, p) == IF p = 0 THEN 0 ELSE IF At(s, p - 1) = NL THEN p ELSE Bol(s, p - 1)

Count(s, c, a, b) == Cardinality({p \in a..(b - 1) : At(s, p) = c})

Upper(c) == c \in 65..90
LowerC(c) == IF Upper(c) THEN c + 32 ELSE c
Digit(c) == c \in 48..57

(* Two bytes agree, letter case aside when icase. *)
SameC(x, y, icase) == (x = y) \/ (icase /\ LowerC(x) = LowerC(y))
SameS(x, y, icase) ==
    \/ x = y
    \/ icase /\ Len(x) = Len(y) /\ \A i \in DOMAIN x : LowerC(x[i]) = LowerC(y[i])

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
RangeOf(q) == {q[i] : i \in DOMAIN q}
=============================================================================
