---------------------------- MODULE CheckTextVal ----------------------------
(* Recorded runs of the real FileCheck on the texts of check files: the text   *)
(* is read as CheckText says, and the run that follows is one of FileCheck.    *)
EXTENDS FileCheckVal, CheckText

Reading(x) ==
    LET r == ReadChecks(x.check, x.opt)
        im == [i \in DOMAIN x.imp |-> PatternOf("not", x.imp[i], FALSE, 0)]
        st == Worst({r.st} \cup {im[i].st : i \in DOMAIN im}) IN
    [id |-> x.id, in |-> Canonical(x.in, x.opt.strict), ds |-> r.ds, opt |-> x.opt, env |-> x.env,
     imp |-> IF st = "ok" THEN [i \in DOMAIN im |-> im[i].r] ELSE <<>>, obs |-> x.obs,
     st |-> IF st = "ok" /\ x.opt.verdict THEN "skip" ELSE st]
ASSUME TLCSet(44, [i \in DOMAIN TLCGet(42) |-> Reading(TLCGet(42)[i])])
ASSUME TLCGet(44) = TLCGet(44)
ReadCase(i) == TLCGet(44)[i]
TextIds(x) == {i \in DOMAIN TLCGet(44) : ReadCase(i).st = "ok"}
(* opt.verdict: any verdict of a usable check file will do, as long as there is one. *)
(* What cannot be used is an error, whatever the input. *)
ASSUME \A i \in DOMAIN TLCGet(44) :
    LET x == ReadCase(i) IN
    CASE x.st = "skip" -> IF x.obs.verdict \in {"ok", "fail", "error"} THEN PrintT("SKIP " \o ToString(x.id))
                          ELSE PrintT("OUT " \o ToString(x.id) \o " a verdict")
      [] x.st = "err" -> IF x.obs.verdict = "error" THEN PrintT("ACC " \o ToString(x.id))
                         ELSE PrintT("OUT " \o ToString(x.id) \o " the check file cannot be used")
      [] OTHER -> TRUE
=============================================================================
