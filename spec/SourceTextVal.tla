--------------------------- MODULE SourceTextVal ---------------------------
(* Recorded histories of edits of real texts: each is done or refused as       *)
(* specified, and in the end every place is where it is said to be.            *)
EXTENDS Judge, SourceText

VARIABLES step, text
vars == <<id, ph, step, text>>
X == Case(id)
Init == JudgeInit /\ step = 0 /\ text = Case(id).text
Differs(what, e) == Reject(X, [at |-> what, specified |-> e])
Step ==
    /\ ph = "asked" /\ step < Len(X.edits)
    /\ LET e == X.edits[step + 1]
           res == IF e[2] = <<>> \/ HasSelection(text, e[2]) THEN "ok" ELSE "refused" IN
       IF X.obs.res[step + 1] = res
       THEN /\ text' = IF res = "refused" THEN text ELSE IF e[2] = <<>> THEN e[1] ELSE Replaced(text, e[2], e[1])
            /\ step' = step + 1
            /\ UNCHANGED <<id, ph>>
       ELSE Differs(step + 1, res) /\ ph' = "done" /\ UNCHANGED <<id, step, text>>
Maybe(p, v) == IF p THEN <<v>> ELSE <<>>
End ==
    /\ ph = "asked" /\ step = Len(X.edits)
    /\ ph' = "done" /\ UNCHANGED <<id, step, text>>
    /\ LET n == Lines(text)
           b == Bytes(text)
           ls == [i \in 1..(n + 2) |-> i - 1]
           start(l) == OffsetOf(text, First(text, l))
           starts == [i \in 1..(n + 2) |-> IF HasLine(text, i - 1) THEN <<start(i - 1)>> ELSE <<>>]
           ranges == [i \in 1..(n + 2) |-> IF HasLine(text, i - 1)
                         THEN <<<<start(i - 1), OffsetOf(text, Behind(text, i - 1))>>>> ELSE <<>>]
           index == [i \in 1..(b + 1) |-> LineAt(text, i - 1)]
           places == [i \in 1..(b + 3) |-> IF i - 1 <= b
                         THEN <<<<LineAt(text, i - 1) + 1, ColumnAt(text, i - 1) + 1>>>> ELSE <<>>]
           offsets == [i \in 1..(n + 2) |-> [k \in 1..X.width |->
                         IF HasPlace(text, i - 1, k - 1) THEN <<PlaceOffset(text, i - 1, k - 1)>> ELSE <<>>]]
           sels == [i \in DOMAIN X.sels |-> IF HasSelection(text, X.sels[i]) THEN <<Selected(text, X.sels[i])>> ELSE <<>>] IN
       CASE ~Same(X.obs.text, text) -> Differs("text", text)
         [] X.obs.lines # n -> Differs("number of lines", n)
         [] X.obs.last # n - 1 -> Differs("last line", n - 1)
         [] ~Same(X.obs.starts, starts) -> Differs("starts of lines", starts)
         [] ~Same(X.obs.ranges, ranges) -> Differs("ranges of lines", ranges)
         [] ~Same(X.obs.index, index) -> Differs("lines of offsets", index)
         [] ~Same(X.obs.places, places) -> Differs("line and column of offsets", places)
         [] ~Same(X.obs.offsets, offsets) -> Differs("offsets of line and column", offsets)
         [] ~Same(X.obs.selected, sels) -> Differs("selections", sels)
         [] OTHER -> Accept(X)
Spec == Init /\ [][Step \/ End]_vars
=============================================================================
