--------------------------- MODULE FileCheckProps ---------------------------
(* The listed properties of FileCheck, said of a finished run's matches alone  *)
(* and independently of how the transitions of FileCheck find them.            *)
EXTENDS FileCheck

TypeOKEnd == ph = "end" \/ TypeOK
Good == ph \in {"done", "end"} /\ ok /\ ~Malformed

Plain(ps) == \A i \in DOMAIN ps : ps[i].k \notin {"def", "use", "num", "nuse"}
Dir(m) == c.ds[CHOOSE i \in DOMAIN c.ds : c.ds[i].ln = m.ln]
(* Does ps match exactly [a, b)? *)
IsMatch(ps, a, b) == \E x \in RangeOf(PM(ps, S, a, Len(S), IC, <<>>)) : x.e = b

Body == SelectSeq(out, LAMBDA m : KindOf(m) # "label")
(* The region a match of a directive is to lie in: behind the line of the label before it, *)
(* and before the line of the label after it.                                              *)
LabelMatch(l) == CHOOSE m \in RangeOf(out) : m.ln = l
LabelLines == {c.ds[i].ln : i \in {j \in DOMAIN c.ds : c.ds[j].t = "label"}}
RegionStart(m) ==
    LET before == {l \in LabelLines : l < m.ln} IN
    IF before = {} THEN 0 ELSE Eol(S, LabelMatch(MaxOf(before)).s)
RegionEnd(m) ==
    LET after == {l \in LabelLines : l > m.ln} IN
    IF after = {} THEN Len(S) ELSE Before(LabelMatch(MinOf(after)).s, RegionStart(m))
LabelRegions ==
    Good => /\ \A l \in LabelLines : \E m \in RangeOf(out) : m.ln = l
            /\ \A m \in RangeOf(Body) : RegionStart(m) <= m.s /\ m.e <= RegionEnd(m)
            /\ \A l1, l2 \in LabelLines : l1 < l2 => Eol(S, LabelMatch(l1).s) <= LabelMatch(l2).s

(* Where the search for the i-th match of the body began. *)
PrevEnd(i) ==
    LET m == Body[i]
        same == {j \in 1..(i - 1) : \A l \in LabelLines : ~(Body[j].ln < l /\ l < m.ln)} IN
    IF same = {} THEN RegionStart(m)
    ELSE LET last == MaxOf(same) IN
         IF KindOf(Body[last]) # "dag" THEN Body[last].e
         ELSE (* the furthest end in its group *)
              MaxOf({Body[j].e : j \in {j \in same : /\ KindOf(Body[j]) = "dag"
                       /\ \A q \in DOMAIN c.ds : (Body[j].ln <= c.ds[q].ln /\ c.ds[q].ln <= Body[last].ln) => c.ds[q].t = "dag"}})

Newlines(a, b) == Count(S, NL, a, b)
PlainLeftmost ==
    Good => \A i \in DOMAIN Body :
        LET m == Body[i] d == Dir(m) IN
        d.t \in {"plain", "count"} =>
            /\ m.s >= PrevEnd(i)
            /\ Plain(d.ps) => /\ IsMatch(d.ps, m.s, m.e)
                              /\ \A a \in PrevEnd(i)..(m.s - 1) :
                                    PM(d.ps, S, a, RegionEnd(m), IC, <<>>) = <<>>
NextOnNextLine ==
    Good => \A i \in DOMAIN Body :
        Dir(Body[i]).t = "next" => /\ Newlines(PrevEnd(i), Body[i].s) = 1
                                   /\ Newlines(Body[i].s, Body[i].e) = 0
SameOnSameLine ==
    Good => \A i \in DOMAIN Body :
        Dir(Body[i]).t = "same" => Newlines(PrevEnd(i), Body[i].e) = 0
EmptyOnEmptyLine ==
    Good => \A i \in DOMAIN Body :
        Dir(Body[i]).t = "empty" =>
            LET p == Body[i].s IN
            /\ Newlines(PrevEnd(i), p) = 1 /\ Body[i].e = p
            /\ At(S, p - 1) = NL /\ (p = Len(S) \/ At(S, p) = NL)
CountTimes ==
    Good => \A q \in DOMAIN c.ds : LET d == c.ds[q] IN
        Cardinality({i \in DOMAIN out : out[i].ln = d.ln})
            = (CASE d.t = "count" -> d.n [] d.t = "not" -> 0 [] OTHER -> 1)
DagDisjoint ==
    Good => \A i, j \in DOMAIN Body :
        (i < j /\ KindOf(Body[i]) = "dag" /\ KindOf(Body[j]) = "dag")
            => (Body[i].e <= Body[j].s \/ Body[j].e <= Body[i].s)
(* Nothing excluded stands between the match before an exclusion and the first *)
(* one after it, or the end of its region.                                     *)
NotsAbsent ==
    Good => \A q \in DOMAIN c.ds : LET d == c.ds[q] IN
        (d.t = "not" /\ Plain(d.ps)) =>
            LET before == {i \in DOMAIN Body : Body[i].ln < d.ln /\ RegionStart(Body[i]) = RegionStart(d)
                                               /\ \A l \in LabelLines : ~(Body[i].ln < l /\ l < d.ln)}
                after == {i \in DOMAIN Body : Body[i].ln > d.ln /\ \A l \in LabelLines : ~(d.ln < l /\ l < Body[i].ln)}
                a == IF before = {} THEN RegionStart(d)
                     ELSE LET last == MaxOf(before) IN
                          IF KindOf(Body[last]) # "dag" THEN Body[last].e
                          ELSE MaxOf({Body[j].e : j \in {j \in before : /\ KindOf(Body[j]) = "dag"
                                 /\ \A y \in DOMAIN c.ds : (Body[j].ln <= c.ds[y].ln /\ c.ds[y].ln <= Body[last].ln) => c.ds[y].t = "dag"}})
                b == IF after = {} THEN RegionEnd(d)
                     ELSE LET f == MinOf(after) IN
                          IF KindOf(Body[f]) # "dag" THEN Body[f].s
                          ELSE MinOf({Body[j].s : j \in {j \in after : /\ KindOf(Body[j]) = "dag"
                                 /\ \A y \in DOMAIN c.ds : (Body[f].ln <= c.ds[y].ln /\ c.ds[y].ln <= Body[j].ln) => c.ds[y].t = "dag"}})
            IN ~Found(Find(d.ps, S, a, b, IC, <<>>))
=============================================================================
