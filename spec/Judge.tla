------------------------------- MODULE Judge -------------------------------
(* Recorded answers of the real code against those of the specification: one  *)
(* behaviour per recorded case. A module extends this one with what it says    *)
(* the answer to a case is.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

(* Read once: TLC would otherwise read the file in every step. Compared once,  *)
(* so that records are in normal form before workers share them.               *)
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.CASES))
ASSUME TLCGet(42) = TLCGet(42)
Case(i) == TLCGet(42)[i]
CaseIds(x) == DOMAIN TLCGet(42)

VARIABLES id, ph
judge == <<id, ph>>
JudgeInit == id \in CaseIds(0) /\ ph = "asked"

Accept(x) == PrintT("ACC " \o ToString(x.id))
Leave(x) == PrintT("SKIP " \o ToString(x.id))
Reject(x, e) == PrintT("OUT " \o ToString(x.id) \o " " \o ToJson(e))

(* Equal, also when one is a word and the other is not. *)
Same(a, b) == ToJson(a) = ToJson(b)

(* The answer e to the case x, "skip" standing for any. *)
Compare(x, e, skip) ==
    IF skip THEN Leave(x) ELSE IF e = x.obs THEN Accept(x) ELSE Reject(x, e)
=============================================================================
