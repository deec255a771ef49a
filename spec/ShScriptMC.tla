----------------------------- MODULE ShScriptMC -----------------------------
(* Laws of scripts and placeholders, for every text of a bounded kind.         *)
EXTENDS ShScript
CONSTANTS MaxText, MaxDirectives

Letters == {37, 123, 120, 125, 97}               \* % { x } a
X == <<37, 123, 120, 125>>                       \* %{x}
AA == <<97>>
V1 == <<97, 37>>                                 \* a%
V2 == <<120>>
Sb(k, v) == [k |-> k, m |-> k, v |-> v, w |-> {}]
Scopes == {<<>>, <<Sb(X, V2)>>, <<Sb(X, V1)>>, <<Sb(AA, V2), Sb(X, V1)>>, <<Sb(X, V1), Sb(AA, V2)>>}

Def(k, n) == [k |-> k, key |-> <<37, 123, n, 125>>, v |-> <<n, n>>]
Use == [k |-> "run", t |-> X \o <<37, 123, 97, 125>>, n |-> 1]
Directives == {Def("define", 120), Def("redefine", 120), Def("define", 97), Def("redefine", 97), Use}

VARIABLES text, scope, cmds
vars == <<text, scope, cmds>>
Init == text = <<>> /\ scope \in Scopes /\ cmds = <<>>
Next == \/ Len(text) < MaxText /\ cmds = <<>> /\ (\E c \in Letters : text' = Append(text, c)) /\ UNCHANGED <<scope, cmds>>
        \/ Len(cmds) < MaxDirectives /\ text = <<>> /\ (\E d \in Directives : cmds' = Append(cmds, d)) /\ UNCHANGED <<scope, text>>
Spec == Init /\ [][Next]_vars

RECURSIVE Twice(_)
Twice(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 37 THEN <<37, 37>> ELSE <<s[1]>>) \o Twice(Tail(s))
(* doubling all percent signs protects a text from placeholders that begin with one *)
Protected == (\A i \in DOMAIN scope : scope[i].k[1] = 37) => Expand(Twice(text), scope) = text
(* text without placeholders and percent signs stays *)
StaysAsIs == (\A i \in DOMAIN scope : ~Contains(text, scope[i].k)) /\ ~Contains(text, <<37, 37>>) => Expand(text, scope) = text
(* what is defined stands for its value, wherever it is used *)
Stood == scope = <<Sb(X, V2)>> => Expand(X \o text, scope) = V2 \o Expand(text, scope)
Whole1 == scope = <<Sb(X, V2)>> /\ ~Contains(text, <<37>>) => Expand(text \o X \o text, scope) = text \o V2 \o text

(* Definitions: an error exactly when some name is defined twice, or redefined before it is defined *)
NamesAt(i) == {cmds[j].key : j \in {h \in 1..(i - 1) : cmds[h].k = "define"}} \cup {scope[j].k : j \in DOMAIN scope}
ErrorAt(i) == \/ cmds[i].k = "define" /\ cmds[i].key \in NamesAt(i)
              \/ cmds[i].k = "redefine" /\ cmds[i].key \notin NamesAt(i)
Ex == Expanded([cmds |-> cmds], scope)
ErrorsExact == Ex.bad = (\E i \in DOMAIN cmds : ErrorAt(i))
RunsOnly == ~Ex.bad => Len(Ex.cmds) = Cardinality({i \in DOMAIN cmds : cmds[i].k = "run"})
(* A name in force is never left standing *)
NoneLeft == ~Ex.bad /\ scope = <<>> =>
    \A n \in {120, 97} : (\E i \in DOMAIN cmds : cmds[i].k = "run" /\ <<37, 123, n, 125>> \in NamesAt(i)
                              /\ Cardinality({j \in 1..i : cmds[j].k = "run"}) = Len(Ex.cmds))
        => ~Contains(Ex.cmds[Len(Ex.cmds)], <<37, 123, n, 125>>)
=============================================================================
