----------------------------- MODULE PathTreeMC -----------------------------
(* Every history of insertions into and clearings of a path tree over a small  *)
(* universe of paths: what the answers have to do with each other.             *)
EXTENDS PathTree
CONSTANT Depth

Names == {"a", "b"}
Paths == {<<"/">> \o s : s \in UNION {[1..n -> Names] : n \in 1..Depth}}
Kinds == [p \in {<<"/", "b">>} |-> "file"]

VARIABLES store, ins
vars == <<store, ins>>
Init == store = NoPaths /\ ins = {}
Put(p) == store' = Insert(Kinds, store, p, 1) /\ ins' = IF Refused(Kinds, store, p) THEN ins ELSE ins \cup {p}
Clear == store' = NoPaths /\ ins' = {}
Next == (\E p \in Paths : Put(p)) \/ Clear
Spec == Init /\ [][Next]_vars

(* What was put in is what is there. *)
KeepsAll == DOMAIN store = ins
(* The nearest ancestor is above, stored, and nothing stored is between. *)
NearestIsNearest ==
    \A p \in Paths : HasNearest(store, p) =>
        LET n == Nearest(store, p) IN
        n \in DOMAIN store /\ Below(n, p) /\ ~\E q \in DOMAIN store : Below(n, q) /\ Below(q, p)
(* Without a nearest ancestor nothing above is stored. *)
NoneAbove == \A p \in Paths : ~HasNearest(store, p) => \A q \in DOMAIN store : ~Below(q, p)
(* Children of a path are those of its direct children and itself. *)
ChildrenSplit ==
    \A p \in Paths : Children(store, p, -1) =
        (DOMAIN store \cap {p}) \cup UNION {Children(store, Append(p, c), -1) : c \in Names}
(* No stored file has anything below it. *)
FilesAreLeaves == \A p, q \in DOMAIN store : Below(p, q) => KindOf(Kinds, p) # "file"
=============================================================================
