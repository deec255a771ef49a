---------------------------- MODULE SourceTextMC ----------------------------
(* All texts up to a length, and all edits of them: places are inverse to each *)
(* other, lines make up the text, edits change what they select and no more.   *)
EXTENDS SourceText
CONSTANTS Length, Added

Chars == {97, 10, 233}
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
Places(t) == {<<l, k>> \in (0..Lines(t)) \X (0..(Len(t) + 1)) : HasPlace(t, l, k)}

VARIABLES text, was, sel, new
vars == <<text, was, sel, new>>
Init == text \in Texts(Length) /\ was = text /\ sel = <<>> /\ new = <<>>
Edit == /\ sel = <<>>
        /\ \E a \in Places(text), b \in Places(text), w \in Texts(Added) :
              /\ sel' = <<a[1], a[2], b[1], b[2]>>
              /\ new' = w
              /\ text' = Replaced(text, sel', w)
        /\ was' = text
Spec == Init /\ [][Edit]_vars

Inverse ==
    /\ \A p \in Places(text) : LET o == PlaceOffset(text, p[1], p[2]) IN
            LineAt(text, o) = p[1] /\ ColumnAt(text, o) = p[2]
    /\ \A o \in 0..Bytes(text) :
            LET i == CharAt(text, o) IN
            /\ HasPlace(text, LineAt(text, o), ColumnAt(text, o))
            /\ PlaceOffset(text, LineAt(text, o), ColumnAt(text, o)) = OffsetOf(text, i)
(* One place for every character, and one for the end. *)
OnePlaceEach == Cardinality(Places(text)) = Len(text) + 1
LinesMakeText ==
    LET RECURSIVE Cat(_)
        Cat(l) == IF l = Lines(text) THEN <<>> ELSE SubSeq(text, First(text, l), Behind(text, l) - 1) \o Cat(l + 1)
    IN Cat(0) = text
EditIsLocal ==
    sel # <<>> => Len(text) = Len(was) - Len(Selected(was, sel)) + Len(new)
=============================================================================
