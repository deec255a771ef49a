-------------------------- MODULE FileCheckShownVal --------------------------
(* Recorded failed runs of the real FileCheck, and what they showed of the     *)
(* input, against the specification.                                           *)
(* c.obs: [verdict, nodes |-> << [ln |-> line of a check, said |-> stretches], .. >>,     *)
(*         dump |-> <<>> or << [lines, failed, matched, s, e, at |-> << <<line, s, e>>, .. >>] >> ] *)
(* c.show: [all |-> the option for whole stretches, never |-> the one against them]        *)
EXTENDS FileCheckShown, Json, IOUtils

ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.CASES))
ASSUME TLCGet(42) = TLCGet(42)
RecordedCase(i) == TLCGet(42)[i]
RecordedIds(x) == DOMAIN TLCGet(42)

Nodes == c.obs.nodes
LineOf(i) == c.ds[i].ln
IndexOf(l) == CHOOSE i \in DOMAIN c.ds : c.ds[i].ln = l
(* The stretch is shown with an error, or has been with an error before *)
TellsOf(n, w) ==
    \/ Nodes[n].said = <<w>>
    \/ /\ Nodes[n].said = <<Shows("same", 0, 0, 0, 0, 0)>>
       /\ \E m \in 1..(n - 1) : Nodes[m].said = <<w>>
(* A check after a group may be found, but before or within what the group     *)
(* needs: then the error is about both, and says nothing of where.             *)
AfterGroup(i) == \E j \in 1..(i - 1) : c.ds[j].t = "dag" /\ \A m \in (j + 1)..(i - 1) : c.ds[m].t = "not"
Discarded(i) == AfterGroup(i) /\ \A n \in DOMAIN Nodes : Nodes[n].ln = LineOf(i) => Nodes[n].said = <<>>
WhereShown(b) ==
    \/ b.ln = 0 \/ b.at >= 0
    \/ LET i == IndexOf(b.ln) IN
       \/ c.ds[i].t = "not" \/ ~Tells(i)
       \/ Discarded(i)
       \/ LET r == Looked(i) IN
          \E a \in Begins(i) : \E n \in DOMAIN Nodes : Nodes[n].ln = b.ln /\ TellsOf(n, Stretch(a, r.b, c.show.all))
(* All that matched is marked, and no check that did is marked elsewhere *)
InGroupBefore(l, i) == LET j == IndexOf(l) IN
    j < i /\ c.ds[j].t = "dag" /\ \A m \in (j + 1)..(i - 1) : c.ds[m].t \in {"dag", "not"}
Given(b, l) == b.ln > 0 /\ b.at < 0 /\ Discarded(IndexOf(b.ln)) /\ InGroupBefore(l, IndexOf(b.ln))
MarkSet(b) == {<<out[i].ln, out[i].s, out[i].e>> : i \in {j \in DOMAIN out : out[j].s < out[j].e /\ ~Given(b, out[j].ln)}}
DumpRight(b) ==
    /\ Len(c.obs.dump) = 1
    /\ LET u == c.obs.dump[1]
           seen == {u.at[i] : i \in DOMAIN u.at} IN
       /\ u.lines = LinesIn /\ u.s = 0 /\ u.e = Len(S)
       /\ u.matched >= Cardinality({i \in DOMAIN out : ~Given(b, out[i].ln)})
       /\ MarkSet(b) \subseteq seen
       /\ \A x \in seen : (\E m \in MarkSet(b) : m[1] = x[1]) => x \in MarkSet(b)
NothingShown == c.obs.dump = <<>> /\ \A n \in DOMAIN Nodes : Nodes[n].said = <<>>

Accepts ==
    IF c.obs.verdict # "fail" \/ ok \/ Malformed \/ c.in = <<>> THEN TRUE
    ELSE IF c.show.never THEN NothingShown
    ELSE IF Blame = {} THEN DumpRight([ln |-> 0, at |-> -1])
    ELSE \E b \in Blame : DumpRight(b) /\ WhereShown(b)

Wanted == [blame |-> Blame, out |-> out,
           looked |-> {[ln |-> b.ln, st |-> LET r == Looked(IndexOf(b.ln)) IN Stretch(r.a, r.b, c.show.all)] :
                         b \in {x \in Blame : x.ln > 0 /\ x.at < 0 /\ c.ds[IndexOf(x.ln)].t # "not"}}]
Report ==
    /\ ph = "done"
    /\ IF Accepts THEN PrintT("ACC " \o ToString(c.id))
       ELSE PrintT("OUT " \o ToString(c.id) \o " " \o ToJson(Wanted))
    /\ ph' = "end"
    /\ UNCHANGED <<k, di, cur, fin, regs, bi, env, nots, grp, gm, out, ok>>
Spec == Init /\ [][Next \/ Report]_vars
TypeOKEnd == ph = "end" \/ TypeOK
CulpritEnd == ph = "end" \/ Culprit
=============================================================================
