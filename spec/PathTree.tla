------------------------------ MODULE PathTree ------------------------------
(* The path tree: a map from paths to values that also knows which stored path *)
(* is the closest above another one. A path is the sequence of its components; *)
(* kind says what the file system has there: "dir", "file" or "unknown".       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* --------------------------------- paths --------------------------------- *)
Rooted(p) == p # <<>> /\ p[1] = "/"
RECURSIVE NormFrom(_, _)
(* p with "." left out and ".." taking back what is before it. *)
NormFrom(p, acc) ==
    IF p = <<>> THEN acc
    ELSE LET c == Head(p) IN
         NormFrom(Tail(p),
            CASE c = "." -> acc
              [] c = ".." /\ acc # <<>> /\ acc[Len(acc)] \notin {"..", "/"} -> SubSeq(acc, 1, Len(acc) - 1)
              [] c = ".." /\ acc # <<>> /\ acc[Len(acc)] = "/" -> acc
              [] OTHER -> Append(acc, c))
Norm(p) == NormFrom(p, <<>>)

Under(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p      \* q is p or below it
Below(p, q) == Under(p, q) /\ p # q

(* --------------------------------- state --------------------------------- *)
NoPaths == <<>>        \* the function without arguments
KindOf(kind, p) == IF p \in DOMAIN kind THEN kind[p] ELSE "unknown"

(* A path below a stored file cannot be, nor a file above a stored path. *)
Refused(kind, store, p) ==
    \/ \E q \in DOMAIN store : Below(q, p) /\ KindOf(kind, q) = "file"
    \/ KindOf(kind, p) = "file" /\ \E q \in DOMAIN store : Below(p, q)
Insert(kind, store, p, v) ==
    IF Refused(kind, store, p) THEN store
    ELSE [q \in DOMAIN store \cup {p} |-> IF q = p THEN v ELSE store[q]]

(* -------------------------------- answers -------------------------------- *)
Above(store, p) == {q \in DOMAIN store : Below(q, p)}
HasNearest(store, p) == Above(store, p) # {}
Nearest(store, p) == CHOOSE q \in Above(store, p) : \A r \in Above(store, p) : Len(r) <= Len(q)
Children(store, p, d) == {q \in DOMAIN store : Under(p, q) /\ (d >= 0 => Len(q) - Len(p) <= d)}
Files(kind, store) ==
    {q \in DOMAIN store : KindOf(kind, q) # "dir" /\ ~\E r \in DOMAIN store : Below(q, r)}

(* Components are ordered by their ranks, paths by components. *)
RECURSIVE Before(_, _, _)
Before(rank, p, q) ==
    IF q = <<>> THEN FALSE
    ELSE IF p = <<>> THEN TRUE
    ELSE IF Head(p) = Head(q) THEN Before(rank, Tail(p), Tail(q))
    ELSE rank[Head(p)] < rank[Head(q)]
RECURSIVE Sorted(_, _)
Sorted(rank, S) ==
    IF S = {} THEN <<>>
    ELSE LET m == CHOOSE p \in S : \A q \in S \ {p} : Before(rank, p, q) IN
         <<m>> \o Sorted(rank, S \ {m})
Listing(rank, store, S) == LET s == Sorted(rank, S) IN [i \in DOMAIN s |-> <<s[i], store[s[i]]>>]
=============================================================================
