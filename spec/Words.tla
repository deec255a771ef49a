------------------------------- MODULE Words -------------------------------
(* The words of a call, and what is made of their characters.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(w, i) == SubSeq(w, i, i)
From(w, i) == SubSeq(w, i, Len(w))
Lower == "abcdefghijklmnopqrstuvwxyz"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Figures == "0123456789"
Of(c, cs) == \E i \in 1 .. Len(cs) : Ch(cs, i) = c
Letter(c) == Of(c, Lower) \/ Of(c, Upp)
Holds(w, c) == \E i \in 1 .. Len(w) : Ch(w, i) = c
First(w, c) == CHOOSE i \in 1 .. Len(w) : Ch(w, i) = c /\ \A j \in 1 .. (i - 1) : Ch(w, j) # c
RECURSIVE Split(_, _)
Split(w, c) == IF ~Holds(w, c) THEN <<w>> ELSE <<SubSeq(w, 1, First(w, c) - 1)>> \o Split(From(w, First(w, c) + 1), c)
Dashed(w) == Len(w) > 1 /\ Ch(w, 1) = "-"

NameOK(n) == /\ n # "" /\ (Letter(Ch(n, 1)) \/ Ch(n, 1) = "_")
             /\ \A i \in 1 .. Len(n) : Letter(Ch(n, i)) \/ Of(Ch(n, i), Figures \o "_")
NumberOK(v) == LET d == IF Len(v) > 0 /\ Ch(v, 1) = "-" THEN From(v, 2) ELSE v IN
               d # "" /\ \A i \in 1 .. Len(d) : Of(Ch(d, i), Figures)
(* NAME=VALUE, or #NAME=NUMBER *)
DefineOK(v) ==
    /\ Holds(v, "=")
    /\ LET n == SubSeq(v, 1, First(v, "=") - 1) x == From(v, First(v, "=") + 1) IN
       IF v # "" /\ Ch(v, 1) = "#" THEN NameOK(From(n, 2)) /\ NumberOK(x) ELSE NameOK(n)
=============================================================================
