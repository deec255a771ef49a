--------------------------- MODULE FileCheckVal ---------------------------
(* Recorded runs of the real FileCheck against the specification: a run is    *)
(* accepted when some behaviour of the specification ends with its verdict,   *)
(* its matches and its bindings.                                              *)
EXTENDS FileCheck, Json, IOUtils

(* Read once: TLC would otherwise read the file in every step. *)
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.CASES))
(* Compared once, so that records are in normal form before workers share them. *)
ASSUME TLCGet(42) = TLCGet(42)
RecordedCase(i) == TLCGet(42)[i]
RecordedIds(x) == DOMAIN TLCGet(42)

(* o: a match as recorded: <<line, start, end, << <<name, start, end>>, ..>> >> *)
SameBinds(b, caps) ==
    /\ {x[1] : x \in b} = {caps[i][1] : i \in DOMAIN caps}
    /\ \A x \in b : \A i \in DOMAIN caps :
          caps[i][1] = x[1] =>
              IF x[2].t = "s" THEN Slice(S, caps[i][2], caps[i][3]) = x[2].v
              ELSE NumValue(x[2].f, Slice(S, caps[i][2], caps[i][3])) = x[2].v
SameOut(o) ==
    /\ Len(out) = Len(o)
    /\ \A i \in DOMAIN o : out[i].ln = o[i][1] /\ out[i].s = o[i][2] /\ out[i].e = o[i][3]
                           /\ SameBinds(out[i].b, o[i][4])
Accepts ==
    IF Malformed THEN c.obs.verdict = "error"
    ELSE IF ok THEN c.obs.verdict = "ok" /\ SameOut(c.obs.m)
    ELSE c.obs.verdict = "fail"

Report ==
    /\ ph = "done"
    /\ IF Accepts THEN PrintT("ACC " \o ToString(c.id))
       ELSE PrintT("OUT " \o ToString(c.id) \o " " \o ToJson([ok |-> ok, out |-> out]))
    /\ ph' = "end"
    /\ UNCHANGED <<k, di, cur, fin, regs, bi, env, nots, grp, gm, out, ok>>
Spec == Init /\ [][Next \/ Report]_vars
TypeOKEnd == ph = "end" \/ TypeOK
=============================================================================
