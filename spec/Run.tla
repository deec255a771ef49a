-------------------------------- MODULE Run --------------------------------
(* A run of many tests: a state machine. Workers take tests from a queue, one   *)
(* each at a time, and report what became of them. A test of the pool is        *)
(*   [sel : BOOLEAN,  whether it is selected                                    *)
(*    kind : "run" (it has commands), "told" (its status is known without       *)
(*           running any, it is told), "breaks" (nothing can be run any more),  *)
(*    told, retries, xfail]                                                     *)
(* Tests are known by their place in the pool.                                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES pool, workers,
          queue,    \* tests no worker has taken
          taken,    \* taken, but not running
          busy,     \* running
          try,      \* attempts begun, test by test
          reports,  \* what was reported, in that order
          broken    \* whether the rest is given up
running == <<pool, workers, queue, taken, busy, try, reports, broken>>

RunInit(p, w) ==
    /\ pool = p /\ workers = w /\ queue = DOMAIN p /\ taken = {} /\ busy = {}
    /\ try = [t \in DOMAIN p |-> 0] /\ reports = <<>> /\ broken = FALSE

Held == taken \cup busy
Free == Cardinality(Held) < workers
Reported(t, s) == reports' = Append(reports, [t |-> t, s |-> s])
Keep == UNCHANGED <<pool, workers>>

Take(t) ==
    /\ t \in queue /\ Free /\ ~broken
    /\ queue' = queue \ {t} /\ taken' = taken \cup {t}
    /\ UNCHANGED <<busy, try, reports, broken>> /\ Keep
Away(t, s, b) ==
    /\ t \in taken /\ try[t] = 0
    /\ taken' = taken \ {t} /\ Reported(t, s) /\ broken' = (broken \/ b)
    /\ UNCHANGED <<queue, busy, try>> /\ Keep
PassBy(t) == t \in taken /\ ~pool[t].sel /\ Away(t, "EXCLUDED", FALSE)
Tell(t) == t \in taken /\ pool[t].sel /\ pool[t].kind = "told" /\ Away(t, pool[t].told, FALSE)
Break(t) == t \in taken /\ pool[t].sel /\ pool[t].kind = "breaks" /\ Away(t, "UNRESOLVED", TRUE)
Begin(t) ==
    /\ t \in taken /\ pool[t].sel /\ pool[t].kind = "run"
    /\ taken' = taken \ {t} /\ busy' = busy \cup {t} /\ try' = [try EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<queue, reports, broken>> /\ Keep
Final(t, r) ==
    LET s == IF r = "PASS" /\ try[t] > 1 THEN "FLAKYPASS" ELSE r IN
    IF ~pool[t].xfail THEN s
    ELSE CASE s \in {"PASS", "FLAKYPASS"} -> "XPASS" [] s = "FAIL" -> "XFAIL" [] OTHER -> s
(* An attempt ends, r being PASS, FAIL, UNRESOLVED, or TIMEOUT *)
End(t, r) ==
    /\ t \in busy
    /\ busy' = busy \ {t}
    /\ IF r = "FAIL" /\ try[t] <= pool[t].retries
       THEN taken' = taken \cup {t} /\ UNCHANGED reports
       ELSE Reported(t, Final(t, r)) /\ UNCHANGED taken
    /\ UNCHANGED <<queue, try, broken>> /\ Keep

Over == Held = {} /\ (queue = {} \/ broken)

(* What is said in the end: those never taken are skipped, or were not selected *)
Rest(t) == IF pool[t].sel THEN "SKIPPED" ELSE "EXCLUDED"
Became(s) == {reports[i].t : i \in {i \in DOMAIN reports : reports[i].s = s}} \cup {t \in queue : Rest(t) = s}
Statuses == {"UNRESOLVED", "EXCLUDED", "SKIPPED", "PASS", "FLAKYPASS", "FAIL", "XFAIL", "XPASS", "TIMEOUT", "UNSUPPORTED"}
Failing == {"UNRESOLVED", "TIMEOUT", "FAIL", "XPASS"}
NoneSelected == \A t \in DOMAIN pool : ~pool[t].sel
Succeeds == ~NoneSelected /\ ~broken /\ \A s \in Failing : Became(s) = {}
=============================================================================
