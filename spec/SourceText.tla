----------------------------- MODULE SourceText -----------------------------
(* A text with lines: the places of its bytes, and edits of it. A text is the  *)
(* sequence of its characters' code points; offsets count bytes of UTF-8 from  *)
(* 0, lines and columns count line ends and characters from 0.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Wide(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Bytes(_)
Bytes(t) == IF t = <<>> THEN 0 ELSE Wide(Head(t)) + Bytes(Tail(t))
(* Offsets of the characters, and of the end. *)
OffsetOf(t, i) == Bytes(SubSeq(t, 1, i - 1))
LF == 10
Lines(t) == 1 + Cardinality({i \in DOMAIN t : t[i] = LF})
(* Number of the first character of line l, counted from 0. *)
RECURSIVE FirstOf(_, _, _)
FirstOf(t, l, i) == IF l = 0 THEN i ELSE FirstOf(t, IF t[i] = LF THEN l - 1 ELSE l, i + 1)
First(t, l) == FirstOf(t, l, 1)
(* Behind the last character of line l, its line end included. *)
Behind(t, l) == IF l + 1 < Lines(t) THEN First(t, l + 1) ELSE Len(t) + 1
(* Columns of line l: one before every character and, in the last line, one at the end. *)
Columns(t, l) == Behind(t, l) - First(t, l) + (IF l + 1 = Lines(t) THEN 1 ELSE 0)

HasLine(t, l) == l \in 0..(Lines(t) - 1)
HasPlace(t, l, k) == HasLine(t, l) /\ k \in 0..(Columns(t, l) - 1)
PlaceOffset(t, l, k) == OffsetOf(t, First(t, l) + k)

(* The character holding the byte at offset o: Len(t) + 1 for the end. *)
CharAt(t, o) == CHOOSE i \in 1..(Len(t) + 1) :
                    OffsetOf(t, i) <= o /\ (i <= Len(t) => o < OffsetOf(t, i + 1))
LineAt(t, o) == Cardinality({i \in 1..(CharAt(t, o) - 1) : t[i] = LF})
ColumnAt(t, o) == CharAt(t, o) - First(t, LineAt(t, o))

(* A selection <<line, column, line, column>>, either end first. *)
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Ends(s) == LET a == <<s[1], s[2]>> b == <<s[3], s[4]>> IN IF Earlier(a, b) THEN <<a, b>> ELSE <<b, a>>
HasSelection(t, s) == HasPlace(t, s[1], s[2]) /\ HasPlace(t, s[3], s[4])
CharOf(t, p) == First(t, p[1]) + p[2]
Selected(t, s) == SubSeq(t, CharOf(t, Ends(s)[1]), CharOf(t, Ends(s)[2]) - 1)
Replaced(t, s, w) == SubSeq(t, 1, CharOf(t, Ends(s)[1]) - 1) \o w \o SubSeq(t, CharOf(t, Ends(s)[2]), Len(t))
=============================================================================
