----------------------------- MODULE BoolExprMC -----------------------------
(* The grammar and the meaning of feature expressions hang together: every     *)
(* expression, written with no more brackets than needed, is read back as      *)
(* itself up to the grouping of equal operators, and with the same value under *)
(* every set of features.                                                      *)
EXTENDS BoolExpr
CONSTANT Depth

A == <<97>>
B == <<98>>
Leaves == {[k |-> "var", n |-> A], [k |-> "var", n |-> B], [k |-> "lit", v |-> TRUE]}
RECURSIVE Exprs(_)
Exprs(d) ==
    IF d = 0 THEN Leaves
    ELSE LET s == Exprs(d - 1) IN
         s \cup {[k |-> "not", a |-> x] : x \in s}
           \cup {[k |-> o, a |-> x, b |-> y] : o \in {"and", "or"}, x \in s, y \in s}

VARIABLES l, r, op
vars == <<l, r, op>>
Init == l \in Exprs(Depth) /\ r = [k |-> "none"] /\ op = "none"
(* Build an expression out of two. *)
Next == op = "none" /\ op' \in {"not", "and", "or"} /\ r' \in Exprs(Depth - 1) /\ UNCHANGED l
Spec == Init /\ [][Next]_vars

X == CASE op = "none" -> l [] op = "not" -> [k |-> "not", a |-> l] [] OTHER -> [k |-> op, a |-> l, b |-> r]
Back == ReadExpr(Write(X, 1))
Readable == Back.st = "ok"
SameMeaning == \A fs \in SUBSET {A, B} : Truth(Back.x, fs) = Truth(X, fs)
(* Reading and writing again changes nothing. *)
Stable == Write(Back.x, 1) = Write(X, 1)
=============================================================================
