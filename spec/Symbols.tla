------------------------------ MODULE Symbols ------------------------------
(* Names made symbols: a table that only grows. A text already in it keeps its *)
(* symbol, any other gets one that no text has. Asking for a symbol is two     *)
(* steps, of which the second looks again: several may ask at the same time.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Those there from the start: their texts, and whether they are keywords. *)
Given == <<"false", "true", "", "LINE", "add", "div", "max", "min", "mul", "sub", "CHECK", "COM", "RUN">>
GivenKeys == 4 .. 10

(* tbl: symbols and their texts, as a set of pairs *)
HasText(tbl, t) == \E p \in tbl : p[2] = t
SymOf(tbl, t) == (CHOOSE p \in tbl : p[2] = t)[1]
(* The symbol s may be the answer for the text t. *)
MayBe(tbl, s, t) == IF HasText(tbl, t) THEN SymOf(tbl, t) = s ELSE ~\E p \in tbl : p[1] = s

RECURSIVE LessQ(_, _)
LessQ(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessQ(Tail(a), Tail(b))
Order(a, b) == IF a = b THEN 0 ELSE IF LessQ(a, b) THEN -1 ELSE 1
=============================================================================
