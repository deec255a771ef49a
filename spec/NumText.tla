------------------------------ MODULE NumText ------------------------------
(* The text of numeric blocks, [[#..]] and [[@LINE..]]: what it says.          *)
EXTENDS Numeric

Has(b, p, e, w) == p + Len(w) <= e /\ Slice(b, p, p + Len(w)) = w
Blank(c) == c \in {9, 11, 12, 13, 32}
RECURSIVE SkipBlanks(_, _, _)
SkipBlanks(b, p, e) == IF p < e /\ Blank(At(b, p)) THEN SkipBlanks(b, p + 1, e) ELSE p
(* Parsers give [st, r, p]: st "ok" with the expression and where it ended,   *)
(* "err" if the text is none, "skip" if it lies outside of what is specified. *)
Bad == [st |-> "err", r |-> <<>>, p |-> 0]
Skip == [st |-> "skip", r |-> <<>>, p |-> 0]
Got(r, p) == [st |-> "ok", r |-> r, p |-> p]
CharOf(c) ==
    CASE c = 36 -> "$" [] c = 95 -> "_"
      [] Digit(c) -> SubSeq("0123456789", c - 47, c - 47)
      [] c \in 65..90 -> SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", c - 64, c - 64)
      [] c \in 97..122 -> SubSeq("abcdefghijklmnopqrstuvwxyz", c - 96, c - 96)
RECURSIVE Name(_)
Name(w) == IF w = <<>> THEN "" ELSE CharOf(w[1]) \o Name(Tail(w))
NameStart(c) == c = 95 \/ c \in 65..90 \/ c \in 97..122
RECURSIVE SkipName(_, _)
SkipName(b, p) == IF p < Len(b) /\ (NameStart(At(b, p)) \/ Digit(At(b, p))) THEN SkipName(b, p + 1) ELSE p


(* ---------------------------------- tokens ---------------------------------- *)
(* [t, ..]: "id" with its bytes, "num" with its value, "bad" where there is none *)
Punctuation == {35, 37, 40, 41, 43, 44, 45, 46, 58, 64}      \* # % ( ) + , - . : @
RECURSIVE SkipSet(_, _, _)
SkipSet(b, p, cs) == IF p < Len(b) /\ At(b, p) \in cs THEN SkipSet(b, p + 1, cs) ELSE p
Decimals == 48..57
Hexes == 48..57 \cup 65..70 \cup 97..102
RECURSIVE Tokens(_, _, _)
(* Tokens of w from p on, with the offset of each *)
Tokens(w, p0, acc) ==
    LET p == SkipBlanks(w, p0, Len(w)) IN
    IF p >= Len(w) THEN acc
    ELSE LET c == At(w, p)
             one(t, q) == Tokens(w, q, Append(acc, [t |-> t, w |-> Slice(w, p, q), p |-> p])) IN
    CASE c \in Punctuation -> one("op", p + 1)
      [] c = 61 /\ Has(w, p, Len(w), <<61, 61>>) -> one("op", p + 2)
      [] NameStart(c) -> one("id", SkipName(w, p))
      [] c = 48 /\ Has(w, p, Len(w), <<48, 120>>) -> one("hex", SkipSet(w, p + 2, Hexes))
      [] c = 48 /\ Has(w, p, Len(w), <<48, 98>>) -> one("odd", p + 2)
      [] Digit(c) -> one("num", SkipSet(w, p, Decimals))
      [] c = 36 -> one("odd", p + 1)
      [] OTHER -> one("bad", p + 1)

(* -------------------------------- expressions ------------------------------- *)
(* Parsers over tokens: p is the number of those that have been read *)
OpAt(ts, i, c) == i <= Len(ts) /\ ts[i].t = "op" /\ ts[i].w = c
Kind(ts, i) == IF i > Len(ts) THEN "end" ELSE ts[i].t
Const(v) == [k |-> "n", v |-> v]
LineWord == <<76, 73, 78, 69>>
Functions == [add |-> <<97, 100, 100>>, sub |-> <<115, 117, 98>>, mul |-> <<109, 117, 108>>,
              div |-> <<100, 105, 118>>, min |-> <<109, 105, 110>>, max |-> <<109, 97, 120>>]
Number(tok) == IF tok.t = "hex" THEN OfHex([i \in 1..(Len(tok.w) - 2) |-> HexVal(LowerC(tok.w[i + 2]))]) ELSE DecVal(tok.w)
RECURSIVE Sum(_, _, _), SumRest(_, _, _, _), Operand(_, _, _)
(* i: the token to be read next, ln: the line this is in *)
Operand(ts, i, ln) ==
    LET neg == OpAt(ts, i, <<45>>)
        j == IF neg THEN i + 1 ELSE i IN
    CASE Kind(ts, j) \in {"num", "hex"} ->
            LET v == Mk(neg, Number(ts[j])) IN
            IF (ts[j].t = "hex" /\ Len(ts[j].w) = 2) \/ ~Fits128(Mk(FALSE, v.m)) THEN Bad ELSE Got(Const(v), j + 1)
      [] Kind(ts, j) = "odd" -> Skip
      [] neg -> Bad
      [] Kind(ts, i) = "id" /\ ~OpAt(ts, i + 1, <<40>>) -> Got([k |-> "v", n |-> Name(ts[i].w)], i + 1)
      [] Kind(ts, i) = "id" ->
            LET l == Sum(ts, i + 2, ln) IN
            IF l.st # "ok" THEN l
            ELSE IF ~OpAt(ts, l.p, <<44>>) THEN Bad
            ELSE LET r == Sum(ts, l.p + 1, ln) IN
                 IF r.st # "ok" THEN r
                 ELSE IF ~OpAt(ts, r.p, <<41>>) \/ \A f \in DOMAIN Functions : Functions[f] # ts[i].w THEN Bad
                 ELSE Got([k |-> "op", o |-> CHOOSE f \in DOMAIN Functions : Functions[f] = ts[i].w, l |-> l.r, r |-> r.r], r.p + 1)
      [] OpAt(ts, i, <<40>>) ->
            LET x == Sum(ts, i + 1, ln) IN
            IF x.st # "ok" THEN x ELSE IF OpAt(ts, x.p, <<41>>) THEN Got(x.r, x.p + 1) ELSE Bad
      [] OpAt(ts, i, <<64>>) ->
            IF Kind(ts, i + 1) # "id" THEN Bad
            ELSE IF ts[i + 1].p # ts[i].p + 1 \/ ts[i + 1].w # LineWord \/ ln = 0 THEN Skip
            ELSE Got(Const(Int_(ln)), i + 2)
      [] OTHER -> Bad
SumRest(ts, i, ln, l) ==
    IF ~OpAt(ts, i, <<43>>) /\ ~OpAt(ts, i, <<45>>) THEN Got(l, i)
    ELSE LET r == Operand(ts, i + 1, ln) IN
         IF r.st # "ok" THEN r
         ELSE SumRest(ts, r.p, ln, [k |-> "op", o |-> IF OpAt(ts, i, <<43>>) THEN "add" ELSE "sub", l |-> l, r |-> r.r])
Sum(ts, i, ln) == LET l == Operand(ts, i, ln) IN IF l.st # "ok" THEN l ELSE SumRest(ts, l.p, ln, l.r)
AllRead(x, ts) == IF x.st = "ok" /\ x.p <= Len(ts) THEN Bad ELSE x

(* A format, which has a comma behind it *)
RECURSIVE SmallNum(_, _)
SmallNum(w, acc) == IF w = <<>> THEN acc ELSE IF acc > 999 THEN acc ELSE SmallNum(Tail(w), acc * 10 + Head(w) - 48)
Letter == [u |-> 117, d |-> 100, x |-> 120, X |-> 88]
FormatAt(ts, i) ==
    LET pre == OpAt(ts, i + 1, <<35>>)
        a == IF pre THEN i + 2 ELSE i + 1
        dot == OpAt(ts, a, <<46>>)
        b == IF dot THEN a + 2 ELSE a
        named == Kind(ts, b) = "id"
        c == IF named THEN b + 1 ELSE b
        prec == IF dot /\ Kind(ts, a + 1) = "num" THEN SmallNum(ts[a + 1].w, 0) ELSE 0 IN
    IF \E j \in i..(IF named \/ dot THEN c - 2 ELSE c - 1) : j + 1 <= Len(ts) /\ ts[j + 1].p # ts[j].p + Len(ts[j].w) THEN Skip    \* blanks in a format
    ELSE IF dot /\ Kind(ts, a + 1) \in {"hex", "odd"} THEN Skip
    ELSE IF dot /\ Kind(ts, a + 1) # "num" THEN Bad
    ELSE IF prec > 255 \/ ~OpAt(ts, c, <<44>>) THEN Bad
    ELSE IF ~named THEN (IF pre THEN Bad ELSE Got([Unsigned EXCEPT !.p = prec], c + 1))
    ELSE IF ts[b].w \notin {<<117>>, <<100>>, <<120>>, <<88>>} \/ (pre /\ ts[b].w \in {<<117>>, <<100>>}) THEN Bad
    ELSE Got([t |-> IF ts[b].w = <<117>> THEN "u" ELSE IF ts[b].w = <<100>> THEN "d" ELSE "x", p |-> prec, pre |-> pre,
              up |-> IF ts[b].w = <<88>> THEN "up" ELSE "any"], c + 1)

NumPiece(n, f, c, e) == [k |-> "num", n |-> n, f |-> f, c |-> c, e |-> e]
(* What stands between [[# and ]] in line ln *)
NumBlock(w, ln) ==
    LET ts == Tokens(w, 0, <<>>)
        fx == IF OpAt(ts, 1, <<37>>) THEN FormatAt(ts, 1) ELSE Got(NoFmt, 1) IN
    IF fx.st # "ok" THEN fx
    ELSE LET i == fx.p
             def == Kind(ts, i) = "id" /\ OpAt(ts, i + 1, <<58>>)
             at == IF def THEN i + 2 ELSE i
             eq == OpAt(ts, at, <<61, 61>>)
             x == AllRead(Sum(ts, IF eq THEN at + 1 ELSE at, ln), ts) IN
         IF at > Len(ts) THEN Got(NumPiece(IF def THEN Name(ts[i].w) ELSE "", fx.r, FALSE, Const(Zero)), 0)
         ELSE IF OpAt(ts, i, <<64>>) /\ OpAt(ts, i + 2, <<58>>) THEN Skip
         ELSE IF x.st # "ok" THEN x
         ELSE IF def THEN Got(NumPiece(Name(ts[i].w), fx.r, TRUE, x.r), 0)
         ELSE Got([k |-> "nuse", f |-> fx.r, e |-> x.r], 0)
(* What stands between [[ and ]] when it begins with @: the line and what is added to it *)
LineBlock(w, ln) ==
    LET ts == Tokens(w, 0, <<>>)
        x == AllRead(Sum(ts, 1, ln), ts) IN
    IF \E i \in DOMAIN ts : ts[i].t = "op" /\ ts[i].w = <<58>> THEN Skip
    ELSE IF x.st # "ok" THEN x ELSE Got([k |-> "nuse", f |-> NoFmt, e |-> x.r], 0)
=============================================================================
