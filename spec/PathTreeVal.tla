---------------------------- MODULE PathTreeVal ----------------------------
(* Recorded histories of the real path tree: each step is one of the tree as   *)
(* specified, and in the end every question has the specified answer.          *)
EXTENDS Judge, PathTree

VARIABLES step, store
vars == <<id, ph, step, store>>
X == Case(id)
Kind == [p \in {X.kinds[i][1] : i \in DOMAIN X.kinds} |->
            (CHOOSE i \in DOMAIN X.kinds : X.kinds[i][1] = p) ]
KindF == [p \in DOMAIN Kind |-> X.kinds[Kind[p]][2]]

Init == JudgeInit /\ step = 0 /\ store = NoPaths
Differs(what, e) == Reject(X, [at |-> what, specified |-> e])
(* The answer to the operation, and what becomes of the tree. *)
Step ==
    /\ ph = "asked" /\ step < Len(X.ops)
    /\ LET op == X.ops[step + 1]
           p == IF op[1] = "ins" THEN Norm(op[2]) ELSE <<>>
           res == IF op[1] = "ins" /\ Refused(KindF, store, p) THEN "error" ELSE "ok" IN
       IF X.obs.res[step + 1] = res
       THEN /\ store' = IF op[1] = "clear" THEN NoPaths ELSE Insert(KindF, store, p, op[3])
            /\ step' = step + 1
            /\ UNCHANGED <<id, ph>>
       ELSE /\ Differs(step + 1, res)
            /\ ph' = "done"
            /\ UNCHANGED <<id, step, store>>
Depths == <<-1, 0, 1, 2>>
End ==
    /\ ph = "asked" /\ step = Len(X.ops)
    /\ ph' = "done" /\ UNCHANGED <<id, step, store>>
    /\ LET q == [i \in DOMAIN X.queries |-> Norm(X.queries[i])]
           get == [i \in DOMAIN q |-> IF q[i] \in DOMAIN store THEN <<store[q[i]]>> ELSE <<>>]
           near == [i \in DOMAIN q |->
                      IF HasNearest(store, q[i])
                      THEN <<<<Nearest(store, q[i]), store[Nearest(store, q[i])]>>>> ELSE <<>>]
           iter == Listing(X.rank, store, DOMAIN store)
           files == Listing(X.rank, store, Files(KindF, store))
           kids == [i \in DOMAIN q |-> [d \in 1..4 |->
                      Listing(X.rank, store, Children(store, q[i], Depths[d]))]] IN
       CASE ~Same(X.obs.get, get) -> Differs("get", get)
         [] ~Same(X.obs.near, near) -> Differs("nearest ancestors", near)
         [] ~Same(X.obs.iter, iter) -> Differs("all entries", iter)
         [] ~Same(X.obs.files, files) -> Differs("files", files)
         [] ~Same(X.obs.kids, kids) -> Differs("children", kids)
         [] OTHER -> Accept(X)
Spec == Init /\ [][Step \/ End]_vars
=============================================================================
