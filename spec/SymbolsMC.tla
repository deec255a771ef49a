----------------------------- MODULE SymbolsMC -----------------------------
(* Two that ask for names at the same time. Each looks, and then enters.       *)
EXTENDS Symbols
CONSTANTS Askers, Texts, Asks
VARIABLES tbl, want, seen, got, asked
vars == <<tbl, want, seen, got, asked>>
None == <<"nothing">>
Init == tbl = {<<1, "x">>} /\ want = [a \in Askers |-> None] /\ seen = [a \in Askers |-> 0] /\ got = {} /\ asked = [a \in Askers |-> 0]
Look(a) == /\ want[a] = None /\ asked[a] < Asks /\ asked' = [asked EXCEPT ![a] = @ + 1]
           /\ \E t \in Texts : want' = [want EXCEPT ![a] = <<t>>] /\ seen' = [seen EXCEPT ![a] = IF HasText(tbl, t) THEN SymOf(tbl, t) ELSE 0]
           /\ UNCHANGED <<tbl, got>>
Fresh == Cardinality(tbl) + 1
Enter(a) == /\ want[a] # None
            /\ LET t == want[a][1]
                   s == IF seen[a] # 0 THEN seen[a] ELSE IF HasText(tbl, t) THEN SymOf(tbl, t) ELSE Fresh IN
               tbl' = tbl \cup {<<s, t>>} /\ got' = got \cup {<<s, t>>}
            /\ want' = [want EXCEPT ![a] = None] /\ UNCHANGED <<seen, asked>>
Next == \E a \in Askers : Look(a) \/ Enter(a)
Spec == Init /\ [][Next]_vars
OneToOne == \A p, q \in tbl : (p[1] = q[1]) = (p[2] = q[2])
Kept == \A p \in got : p \in tbl
Grows == [][tbl \subseteq tbl']_vars
Allowed == [][\A p \in got' \ got : MayBe(tbl, p[1], p[2])]_vars
=============================================================================
