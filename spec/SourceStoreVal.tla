--------------------------- MODULE SourceStoreVal ---------------------------
(* Recorded histories of a real source store. Requests made one after the      *)
(* other have the specified answers; those made by several threads have the    *)
(* answers of some order in which each takes its turn between being made and   *)
(* being answered.                                                             *)
EXTENDS Judge, SourceStore

VARIABLES step, store, held, turn, helds
vars == <<id, ph, step, store, held, turn, helds>>
X == Case(id)
Threads == DOMAIN X.obs.runs
Init ==
    /\ JudgeInit /\ step = 0 /\ store = EmptyStore /\ held = <<>>
    /\ turn = [i \in DOMAIN Case(id).obs.runs |-> 0]
    /\ helds = [i \in DOMAIN Case(id).obs.runs |-> <<>>]
Differs(what, e) == Reject(X, [at |-> what, specified |-> e])
Step ==
    /\ ph = "asked" /\ step < Len(X.ops)
    /\ LET o == X.ops[step + 1]
           r == Answer(store, held, o) IN
       IF Same(X.obs.ans[step + 1], r.a)
       THEN store' = r.s /\ held' = Held(store, held, o) /\ step' = step + 1 /\ UNCHANGED <<id, ph, turn, helds>>
       ELSE Differs(step + 1, r.a) /\ ph' = "done" /\ UNCHANGED <<id, step, store, held, turn, helds>>
(* Thread i may be next: no other's answer was there before i asked. *)
Runs(i) == X.obs.runs[i]
MayBeNext(i) ==
    /\ turn[i] < Len(Runs(i))
    /\ \A j \in Threads : turn[j] < Len(Runs(j)) => ~(Runs(j)[turn[j] + 1][2] < Runs(i)[turn[i] + 1][1])
Turn(i) ==
    /\ ph = "asked" /\ step = Len(X.ops) /\ MayBeNext(i)
    /\ LET o == X.threads[i][turn[i] + 1]
           r == Answer(store, helds[i], o) IN
       /\ Same(Runs(i)[turn[i] + 1][3], r.a)
       /\ store' = r.s
       /\ helds' = [helds EXCEPT ![i] = Held(store, @, o)]
    /\ turn' = [turn EXCEPT ![i] = @ + 1]
    /\ UNCHANGED <<id, ph, step, held>>
End ==
    /\ ph = "asked" /\ step = Len(X.ops) /\ \A i \in Threads : turn[i] = Len(Runs(i))
    /\ Accept(X)
    /\ ph' = "done" /\ UNCHANGED <<id, step, store, held, turn, helds>>
(* Cases with threads are to be accepted in some order: said here in case none is. *)
Start ==
    /\ ph = "asked" /\ step = 0 /\ Threads # {} /\ \A i \in Threads : turn[i] = 0
    /\ Reject(X, [at |-> "any order of", specified |-> X.threads])
    /\ ph' = "said" /\ UNCHANGED <<id, step, store, held, turn, helds>>
Next == Step \/ End \/ Start \/ \E i \in Threads : Turn(i)
Spec == Init /\ [][Next]_vars
=============================================================================
