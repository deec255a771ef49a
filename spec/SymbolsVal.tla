----------------------------- MODULE SymbolsVal -----------------------------
(* Recorded requests to the real table, answer by answer; those made by        *)
(* several threads at once come in any order, which the table does not show.   *)
EXTENDS Judge, Symbols
VARIABLES step, tbl
vars == <<id, ph, step, tbl>>
X == Case(id)
O == X.obs
Texts(i) == IF i <= Len(X.given) THEN X.given[i] ELSE X.asked[i - Len(X.given)]
All == Len(X.given) + Len(X.asked)
Init == JudgeInit /\ step = 0 /\ tbl = {}
Off(what) == Reject(X, what) /\ ph' = "done" /\ UNCHANGED <<id, step, tbl>>
Enter ==
    /\ ph = "asked" /\ step < All
    /\ LET i == step + 1 IN
       IF MayBe(tbl, O.nums[i], Texts(i)) /\ O.texts[i] = Texts(i) /\ O.again[i] = Texts(i)
       THEN tbl' = tbl \cup {<<O.nums[i], Texts(i)>>} /\ step' = i /\ UNCHANGED <<id, ph>>
       ELSE Off([at |-> i, text |-> Texts(i)])
PairOK(k) == LET a == Texts(X.pairs[k][1]) b == Texts(X.pairs[k][2]) IN O.pairs[k] = <<a = b, Order(a, b), a = b, a = b>>
FirstWith(t) == IF \E i \in 1 .. All : Texts(i) = t THEN CHOOSE i \in 1 .. All : Texts(i) = t /\ \A j \in 1 .. (i - 1) : Texts(j) # t ELSE 0
FindOK(k) == O.found[k] = <<FirstWith(X.find[k]), FirstWith(X.find[k])>>
KeyOK(i) == O.keys[i] = \E j \in GivenKeys : Texts(i) = X.given[j]
End ==
    /\ ph = "asked" /\ step = All
    /\ IF Len(O.nums) # All THEN Off("answers")
       ELSE IF \E k \in DOMAIN X.pairs : ~PairOK(k) THEN Off([pair |-> X.pairs[CHOOSE k \in DOMAIN X.pairs : ~PairOK(k)]])
       ELSE IF \E k \in DOMAIN X.find : ~FindOK(k) THEN Off([find |-> X.find[CHOOSE k \in DOMAIN X.find : ~FindOK(k)]])
       ELSE IF \E i \in 1 .. All : ~KeyOK(i) THEN Off([key |-> Texts(CHOOSE i \in 1 .. All : ~KeyOK(i))])
       ELSE Accept(X) /\ ph' = "done" /\ UNCHANGED <<id, step, tbl>>
Next == Enter \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
