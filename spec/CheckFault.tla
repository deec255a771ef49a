----------------------------- MODULE CheckFault -----------------------------
(* A check file that cannot be used: the places in its text that are to blame. *)
EXTENDS CheckText

(* Where things are, counted in bytes of the text: [s, e]. *)
RECURSIVE FaultyPieces(_, _, _)
(* The blocks of b at or behind p that mean nothing, or whose meaning is not specified. *)
FaultyPieces(b, p, ln) ==
    LET q == NextOpen(b, p) IN
    IF q < 0 THEN {}
    ELSE LET re == At(b, q) = 123
             e == IF re THEN RegexEnd(b, q + 2) ELSE MatchEnd(b, q + 2, 0) IN
         IF e < 0 THEN {[s |-> q, e |-> Len(b)]}
         ELSE LET w == Slice(b, q + 2, e)
                  x == IF re THEN Regex(w) ELSE Block(w, ln) IN
              (IF x.st = "ok" THEN {} ELSE {[s |-> q, e |-> e + 2]}) \cup FaultyPieces(b, e + 2, ln)

HasVariables(ps) == \E i \in DOMAIN ps : ps[i].k \in {"use", "def", "num", "nuse"}

(* Directive i of ls: what may be said to be wrong with it, as a whole or in its pattern. *)
FaultsOf(ls, i) ==
    LET d == ls[i]
        x == PatternOf(d.t, d.body, d.lit, d.ln)
        whole == {[s |-> d.at, e |-> d.end]} IN
    IF \/ d.n \notin 1..255
       \/ d.t \in {"next", "same", "empty"} /\ \A j \in 1..(i - 1) : ls[j].t = "not"
    THEN whole
    ELSE IF x.st = "ok" THEN (IF d.t = "label" /\ HasVariables(x.r) THEN whole ELSE {})
    ELSE LET fs == IF d.t = "empty" \/ d.lit THEN {} ELSE FaultyPieces(d.body, 0, d.ln) IN
         \* of what is not specified nothing is said
         IF fs = {} \/ d.t = "label" \/ x.st = "skip" THEN whole ELSE {[s |-> d.from + f.s, e |-> d.from + f.e] : f \in fs}
Faults(ls) == UNION {FaultsOf(ls, i) : i \in DOMAIN ls}

Unused(ls, o) == {w \in DOMAIN o.prefixes : \A i \in DOMAIN ls : ls[i].w # w}

(* A place p may be that of the blanks before what it is about. *)
RECURSIVE OnlyBlanks(_, _, _)
OnlyBlanks(b, p, e) == p >= e \/ ((Blank(At(b, p)) \/ At(b, p) = 10) /\ OnlyBlanks(b, p + 1, e))
Within(b, p, f) == p \in f.s..f.e \/ (p < f.s /\ OnlyBlanks(b, p, f.s))
=============================================================================
