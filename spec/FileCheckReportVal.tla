----------------------- MODULE FileCheckReportVal -----------------------
(* Recorded reports of failed runs of the real FileCheck against the           *)
(* specification: a report is accepted when some behaviour of the              *)
(* specification fails with that culprit. Runs which do not fail, in the       *)
(* specification or in reality, are judged elsewhere.                          *)
EXTENDS FileCheckReport, Json, IOUtils

ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.CASES))
ASSUME TLCGet(42) = TLCGet(42)
RecordedCase(i) == TLCGet(42)[i]
RecordedIds(x) == DOMAIN TLCGet(42)

(* c.obs: [verdict, errs |-> << [lns |-> lines of the checks named, at |-> offset named first, or -1], .. >>] *)
(* A check that does not match has no place in the input; the report may show a match given up for it.          *)
Names(b) == \E i \in DOMAIN c.obs.errs :
               /\ \E j \in DOMAIN c.obs.errs[i].lns : c.obs.errs[i].lns[j] = b.ln
               /\ \/ c.obs.errs[i].at = b.at
                  \/ b.at = -1 /\ \E j \in DOMAIN out : out[j].s = c.obs.errs[i].at
Accepts ==
    IF c.obs.verdict = "ok" \/ ok THEN TRUE
    ELSE IF Malformed \/ c.obs.verdict = "error"
    THEN (Malformed /\ c.obs.verdict = "error") => \E i \in MalformedLines : Names([ln |-> i, at |-> -1])
    ELSE IF Blame = {} THEN \A i \in DOMAIN c.obs.errs : c.obs.errs[i].lns = <<>>
    ELSE \E b \in Blame : Names(b)

Report ==
    /\ ph = "done"
    /\ IF Accepts THEN PrintT("ACC " \o ToString(c.id))
       ELSE PrintT("OUT " \o ToString(c.id) \o " " \o ToJson(Blame))
    /\ ph' = "end"
    /\ UNCHANGED <<k, di, cur, fin, regs, bi, env, nots, grp, gm, out, ok>>
Spec == Init /\ [][Next \/ Report]_vars
TypeOKEnd == ph = "end" \/ TypeOK
CulpritEnd == ph = "end" \/ Culprit
=============================================================================
