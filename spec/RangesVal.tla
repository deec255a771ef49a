----------------------------- MODULE RangesVal -----------------------------
(* Recorded answers of the real ranges, spans, selections and indices.         *)
EXTENDS Judge, Ranges
Next ==
    /\ ph = "asked" /\ ph' = "done" /\ UNCHANGED id
    /\ LET x == Case(id) v == Value(x.op, x.args) IN
       IF Same(v, x.obs.v) THEN Accept(x) ELSE Reject(x, v)
Spec == JudgeInit /\ [][Next]_judge
=============================================================================
