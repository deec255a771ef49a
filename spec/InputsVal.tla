----------------------------- MODULE InputsVal -----------------------------
(* Recorded answers about real trees of files.                                 *)
EXTENDS Judge, Inputs
(* An answer: [k |-> "list", "text", "said", "error" or "refused", v] *)
Listing(got, set) == got.k = "list" /\ Len(got.v) = Cardinality(set) /\ {got.v[i] : i \in DOMAIN got.v} = set
Nothing(got) == got.k = "error" \/ (got.k = "list" /\ got.v = <<>>)
Text(got, x, o) == IF AFile(x, o[2]) /\ IsText(Bytes(x, o[2])) THEN got.k = "text" /\ got.v = TextOf(Bytes(x, o[2]), o[3]) ELSE got.k = "error"
There(x, o) == ADir(x, o[2]) \/ AFile(x, o[2])
Right(x, o, got) ==
    CASE o[1] = "glob" -> IF ADir(x, o[2]) THEN Listing(got, Globbed(x, o[2], o[3])) ELSE got.k = "refused"
      [] o[1] = "types" -> IF There(x, o) THEN Listing(got, Typed(x, o[2], o[3])) ELSE Nothing(got)
      [] o[1] = "search" -> IF There(x, o) THEN Listing(got, Searched(x, o[2], o[3], o[4])) ELSE Nothing(got)
      [] o[1] = "read" -> Text(got, x, o)
      [] o[1] = "load" -> Text(got, x, o) /\ (got.k = "text" => got.named)
      [] o[1] = "is" -> got.k = "said" /\ got.v = <<There(x, o), AFile(x, o[2]), ADir(x, o[2])>>
      [] o[1] = "fits" -> LET f == \E i \in DOMAIN o[3] : Fits(o[3][i], o[4]) IN
                          got.k = "said" /\ got.v = <<f, f, o[3] = <<>>>> /\ got.n = Cardinality({o[3][i] : i \in DOMAIN o[3]})
Next ==
    /\ ph = "asked" /\ ph' = "done" /\ UNCHANGED id
    /\ LET x == Case(id)
           bad == {i \in DOMAIN x.ops : ~Right(x, x.ops[i], x.obs.ans[i])} IN
       IF bad = {} THEN Accept(x) ELSE Reject(x, [wrong |-> x.ops[CHOOSE i \in bad : \A j \in bad : i <= j], answer |-> CHOOSE i \in bad : \A j \in bad : i <= j])
Spec == JudgeInit /\ [][Next]_judge
=============================================================================
