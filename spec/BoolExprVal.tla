---------------------------- MODULE BoolExprVal ----------------------------
(* Recorded answers of the real feature expressions: whether a text is one,    *)
(* and its value for each of the given sets of features.                       *)
EXTENDS Judge, BoolExpr

Sets(fs) == [i \in DOMAIN fs |-> {fs[i][j] : j \in DOMAIN fs[i]}]
Answer(e, fs) ==
    IF e.st = "err" THEN [verdict |-> "error", values |-> <<>>]
    ELSE [verdict |-> "ok", values |-> [i \in DOMAIN fs |-> Truth(e.x, Sets(fs)[i])]]
Next ==
    /\ ph = "asked"
    /\ ph' = "done"
    /\ UNCHANGED id
    /\ LET x == Case(id)
           e == ReadExpr(x.text) IN
       IF e.st = "skip" THEN Leave(x) ELSE Compare(x, Answer(e, x.sets), FALSE)
Spec == JudgeInit /\ [][Next]_judge
=============================================================================
