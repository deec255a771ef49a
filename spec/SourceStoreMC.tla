---------------------------- MODULE SourceStoreMC ----------------------------
(* Every history of loads and edits of a source store over few names and texts. *)
EXTENDS SourceStore
CONSTANT Ops

Names == {"n", "m"}
Texts == {<<>>, <<97>>, <<97, 10>>}
Groups == {"file", "argument"}
VARIABLES store, hist
vars == <<store, hist>>
Init == store = EmptyStore /\ hist = <<>>
DoLoad == \E g \in Groups, n \in Names, t \in Texts :
            LET r == Load(store, g, n, t) IN
            store' = r.s /\ hist' = Append(hist, [op |-> "load", n |-> n, t |-> t, h |-> r.a])
DoEdit == \E g \in Groups, i \in 0..1, t \in Texts :
            LET r == Edit(store, <<g, i>>, t, <<>>) IN
            store' = r.s /\ hist' = Append(hist, [op |-> "edit", h |-> <<g, i>>, t |-> t, a |-> r.a])
Next == Len(hist) < Ops /\ (DoLoad \/ DoEdit)
Spec == Init /\ [][Next]_vars

(* A load is answered with a handle under which the text is then found. *)
LoadedIsThere ==
    hist # <<>> /\ hist[Len(hist)].op = "load" =>
        LET l == hist[Len(hist)] IN Get(store, l.h) = <<l.n, l.t>> /\ Find(store, l.n) = l.h
(* Handles stay with the name they were given for. *)
HandlesStay ==
    \A i \in DOMAIN hist : hist[i].op = "load" => Known(store, hist[i].h) /\ At(store, hist[i].h).n = hist[i].n
(* Distinct names have distinct handles. *)
NamesApart == \A n, m \in DOMAIN store.named : n # m => store.named[n] # store.named[m]
(* An edit shows under the handle, and nothing else changes by it. *)
Edited ==
    hist # <<>> /\ hist[Len(hist)].op = "edit" /\ hist[Len(hist)].a = "ok" =>
        At(store, hist[Len(hist)].h).t = hist[Len(hist)].t
=============================================================================
