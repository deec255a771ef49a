------------------------------ MODULE LitRun ------------------------------
(* How one test is run: a state machine. The plan of a test says what is known *)
(* before anything is run; the outcomes of its commands come from outside.     *)
(*   plan = [bad, unmet, unsup, noexec, badsub, xfail : BOOLEAN,               *)
(*           retries : Nat, lines : Seq(Seq([o, a]))]                          *)
(* A line is a list of commands, each following the one before it with ; && or *)
(* ||. The lines are run in order, each only if the one before succeeded.      *)
EXTENDS Integers, Sequences

VARIABLES plan,    \* of the test
          pc,      \* "new", "start" or "wait" (a command), "judge" (an attempt), "done"
          try,     \* attempts begun
          ln, cm,  \* the line and the command in it
          last,    \* how the command before ended: "ok", "fail", "kill", "hang" (it did not), "quit" or "quitfail"
          log,     \* every command started, with the attempt and the line it belongs to
          tries,   \* how every attempt so far ended: "PASS", "FAIL", "UNRESOLVED" or "TIMEOUT"
          status   \* of the test, once it is done
run == <<plan, pc, try, ln, cm, last, log, tries, status>>

RunInit(p) ==
    /\ plan = p /\ pc = "new" /\ try = 0 /\ ln = 0 /\ cm = 0 /\ last = "ok"
    /\ log = <<>> /\ tries = <<>> /\ status = "NONE"

Done(s) == pc' = "done" /\ status' = s /\ UNCHANGED <<plan, try, ln, cm, last, log, tries>>

(* What can be told without running anything *)
Look ==
    /\ pc = "new"
    /\ IF plan.bad THEN Done("UNRESOLVED")
       ELSE IF plan.unmet \/ plan.unsup THEN Done("UNSUPPORTED")
       ELSE IF plan.noexec THEN Done("PASS")
       ELSE IF plan.badsub THEN Done("UNRESOLVED")
       ELSE pc' = "start" /\ try' = 1 /\ ln' = 1 /\ cm' = 1 /\ UNCHANGED <<plan, last, log, tries, status>>

Now == plan.lines[ln][cm]
(* The next command is started, or passed over when what it follows says so *)
Wanted == Now.o = <<59>> \/ (Now.o = <<38, 38>> /\ last = "ok") \/ (Now.o = <<124, 124>> /\ last = "fail")

AttemptIs(r) == pc' = "judge" /\ tries' = Append(tries, r) /\ UNCHANGED <<plan, try, ln, cm, log, status>>
Advance(l) ==
    /\ last' = l
    /\ IF l = "kill" THEN AttemptIs("UNRESOLVED")
       ELSE IF l = "hang" THEN AttemptIs("TIMEOUT")
       ELSE IF l = "quit" THEN AttemptIs("PASS")
       ELSE IF l = "quitfail" THEN AttemptIs("FAIL")
       ELSE IF cm < Len(plan.lines[ln])
            THEN pc' = "start" /\ cm' = cm + 1 /\ UNCHANGED <<plan, try, ln, log, tries, status>>
       ELSE IF l = "fail" THEN AttemptIs("FAIL")
       ELSE IF ln = Len(plan.lines) THEN AttemptIs("PASS")
       ELSE pc' = "start" /\ ln' = ln + 1 /\ cm' = 1 /\ UNCHANGED <<plan, try, log, tries, status>>

Start == pc = "start" /\ Wanted /\ pc' = "wait" /\ log' = Append(log, [try |-> try, n |-> ln, a |-> Now.a])
         /\ UNCHANGED <<plan, try, ln, cm, last, tries, status>>
PassOver == pc = "start" /\ ~Wanted /\ Advance(last)
Ended(l) == pc = "wait" /\ Advance(l)

(* An attempt is over: try again, or judge the test by it *)
Final(r) ==
    LET s == IF r = "PASS" /\ try > 1 THEN "FLAKYPASS" ELSE r IN
    IF ~plan.xfail THEN s
    ELSE CASE s \in {"PASS", "FLAKYPASS"} -> "XPASS" [] s = "FAIL" -> "XFAIL" [] OTHER -> s
Judged ==
    /\ pc = "judge"
    /\ LET r == tries[Len(tries)] IN
       IF r = "FAIL" /\ try <= plan.retries
       THEN pc' = "start" /\ try' = try + 1 /\ ln' = 1 /\ cm' = 1 /\ last' = "ok"
            /\ UNCHANGED <<plan, log, tries, status>>
       ELSE Done(Final(r))

Failing == {"UNRESOLVED", "TIMEOUT", "FAIL", "XPASS"}
=============================================================================
