---------------------------- MODULE SourceStore ----------------------------
(* The store of sources: texts loaded under names, asked for by handle or by   *)
(* name, and edited. A handle is <<group, number>>; a store is                 *)
(* [file, argument |-> sequences of [n |-> name, t |-> text], named |-> name   *)
(* to handle]. Every answer is [s |-> store afterwards, a |-> answer].         *)
EXTENDS SourceText

EmptyStore == [file |-> <<>>, argument |-> <<>>, named |-> <<>>]
Refusal == "refused"
Known(s, h) == h[1] \in {"file", "argument"} /\ h[2] < Len(s[h[1]])
At(s, h) == s[h[1]][h[2] + 1]
Keep(s, a) == [s |-> s, a |-> a]

(* The handle of a name whose text is already this one, a new one if it is not. *)
Load(s, g, n, t) ==
    IF n \in DOMAIN s.named /\ At(s, s.named[n]).t = t THEN Keep(s, s.named[n])
    ELSE LET h == <<g, Len(s[g])>> IN
         [s |-> [s EXCEPT ![g] = Append(@, [n |-> n, t |-> t]),
                          !.named = [m \in DOMAIN s.named \cup {n} |-> IF m = n THEN h ELSE s.named[m]]],
          a |-> h]
Edit(s, h, w, sel) ==
    IF ~Known(s, h) THEN Keep(s, Refusal)
    ELSE LET t == At(s, h).t IN
         IF sel = <<>> THEN [s |-> [s EXCEPT ![h[1]][h[2] + 1].t = w], a |-> "ok"]
         ELSE IF HasSelection(t, sel) THEN [s |-> [s EXCEPT ![h[1]][h[2] + 1].t = Replaced(t, sel, w)], a |-> "ok"]
         ELSE Keep(s, Refusal)
Find(s, n) == IF n \in DOMAIN s.named THEN s.named[n] ELSE Refusal
Get(s, h) == IF Known(s, h) THEN <<At(s, h).n, At(s, h).t>> ELSE Refusal
Named(s, n) == IF n \in DOMAIN s.named THEN Get(s, s.named[n]) ELSE Refusal

(* Offsets at which characters begin or the text ends. *)
Edge(t, o) == o <= Bytes(t) /\ OffsetOf(t, CharAt(t, o)) = o
Part(t, a, b) == SubSeq(t, CharAt(t, a), CharAt(t, b) - 1)
SliceOf(s, h, a, b) ==
    IF Known(s, h) /\ Edge(At(s, h).t, a) /\ Edge(At(s, h).t, b) THEN Part(At(s, h).t, a, b) ELSE Refusal
Place(s, h, o) ==
    IF Known(s, h) /\ o <= Bytes(At(s, h).t)
    THEN LET t == At(s, h).t IN <<At(s, h).n, LineAt(t, o) + 1, ColumnAt(t, o) + 1>>
    ELSE Refusal
Placed(s, n, l, k) ==
    IF n \in DOMAIN s.named /\ HasPlace(At(s, s.named[n]).t, l, k)
    THEN LET o == PlaceOffset(At(s, s.named[n]).t, l, k) IN <<s.named[n], o, o>>
    ELSE Refusal
Locate(s, h, a, b) == IF Known(s, h) /\ b <= Bytes(At(s, h).t) THEN <<At(s, h).n, a, b>> ELSE Refusal
Located(s, n, a, b) ==
    IF n \in DOMAIN s.named /\ a <= b /\ b <= Bytes(At(s, s.named[n]).t) THEN <<s.named[n], a, b>> ELSE Refusal
(* Copied into the store it is from a text is itself, into another it is one of that. *)
Copy(s, h) ==
    IF Known(s, h) THEN <<h, TRUE, FALSE, At(s, h).t, h[1]>> ELSE Refusal

(* held: the texts handed out so far, which stay as they were. *)
Answer(s, held, o) ==
    CASE o[1] = "load" -> Load(s, o[2], o[3], o[4])
      [] o[1] = "update" -> Edit(s, o[2], o[3], o[4])
      [] o[1] = "get" -> Keep(s, Get(s, o[2]))
      [] o[1] = "find" -> Keep(s, Find(s, o[2]))
      [] o[1] = "named" -> Keep(s, Named(s, o[2]))
      [] o[1] = "hold" -> Keep(s, IF Known(s, o[2]) THEN "ok" ELSE Refusal)
      [] o[1] = "held" -> Keep(s, IF o[2] < Len(held) THEN held[o[2] + 1] ELSE Refusal)
      [] o[1] = "slice" -> Keep(s, SliceOf(s, o[2], o[3], o[4]))
      [] o[1] = "place" -> Keep(s, Place(s, o[2], o[3]))
      [] o[1] = "placed" -> Keep(s, Placed(s, o[2], o[3], o[4]))
      [] o[1] = "locate" -> Keep(s, Locate(s, o[2], o[3], o[4]))
      [] o[1] = "located" -> Keep(s, Located(s, o[2], o[3], o[4]))
      [] o[1] = "copy" -> Keep(s, Copy(s, o[2]))
Held(s, held, o) == IF o[1] = "hold" /\ Known(s, o[2]) THEN Append(held, At(s, o[2]).t) ELSE held
=============================================================================
