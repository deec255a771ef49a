---------------------------- MODULE LitConfigVal ----------------------------
(* Recorded runs over configurations of all kinds.                             *)
(* A case: [files, inputs |-> << [dir, all], .. >>, obs |-> [refused, named, ran]] *)
EXTENDS LitConfig, Judge
Needed(x) == {i \in DOMAIN x.files : \E j \in DOMAIN x.inputs : Matters(x.files, x.files[i], x.inputs[j].dir, x.inputs[j].all)}
Unfit(x) == {i \in Needed(x) : ~Usable(x.files[i])}
Names(x, i) == [dir |-> x.files[i].dir, kind |-> x.files[i].kind]
Right(x, bad) ==
    IF bad = {} THEN ~x.obs.refused
    ELSE /\ x.obs.refused /\ x.obs.ran = 0
         /\ LET said == {x.obs.named[i] : i \in DOMAIN x.obs.named} IN
            said # {} /\ said \subseteq {Names(x, i) : i \in bad}
Next ==
    /\ ph = "asked" /\ ph' = "done" /\ UNCHANGED id
    /\ LET x == Case(id)
           bad == Unfit(x) IN
       IF Right(x, bad) THEN Accept(x) ELSE Reject(x, [unfit |-> {Names(x, i) : i \in bad}])
Spec == JudgeInit /\ [][Next]_judge
=============================================================================
