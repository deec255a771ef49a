------------------------------- MODULE NotVal -------------------------------
(* Recorded runs of the real command. What a command does is told by its words:*)
(*     r TEST SLOT CODE ...  ends with the number CODE, or, given sN, by the   *)
(*                           signal N unless that is one that does nothing,    *)
(*                           or, given eN, copies its input and ends with N    *)
(* Only those with the name of the test are written down.                      *)
(* Other words name a command that is not there, or cannot be run.             *)
EXTENDS Judge, Not
R == <<114>>
Digits(w) == w # <<>> /\ \A i \in DOMAIN w : w[i] \in 48 .. 57
RECURSIVE Nat10(_)
Nat10(w) == IF w = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(w, 1, Len(w) - 1)) + w[Len(w)] - 48
Harmless == {17, 18, 23, 28}
vars == <<id, ph, words, pc, crash, cmd, started, code>>
Init == JudgeInit /\ NotInit(<<>>)
Read == ph = "asked" /\ ph' = "run" /\ words' = Case(id).words /\ UNCHANGED <<id, pc, crash, cmd, started, code>>
Known(w) == \E i \in DOMAIN Case(id).unrunnable : Case(id).unrunnable[i] = w
Code == IF Len(cmd) < 4 \/ cmd[4] = <<>> THEN <<48>> ELSE cmd[4]
Number(w) == IF Digits(w) THEN Nat10(w) ELSE 0
Echoes == Code[1] = 101
Ended ==
    IF Code[1] = 115 /\ Digits(Tail(Code))
    THEN LET s == Nat10(Tail(Code)) IN IF s \in Harmless THEN Exits(0) ELSE Killed(s)
    ELSE Exits(Number(IF Echoes THEN Tail(Code) ELSE Code))
(* What comes out of it *)
Printed == IF started # <<>> /\ Echoes THEN Case(id).input ELSE <<>>
Go ==
    /\ ph = "run" /\ pc # "done"
    /\ UNCHANGED <<id, ph>>
    /\ \/ ReadWord \/ AsksForHelp
       \/ pc = "start" /\ IF cmd[1] = R THEN Starts ELSE Fails(IF Known(cmd[1]) THEN NotRunnable ELSE NotFound)
       \/ pc = "wait" /\ Ended
End ==
    /\ ph = "run" /\ pc = "done" /\ ph' = "done" /\ UNCHANGED <<id, words, pc, crash, cmd, started, code>>
    /\ LET o == Case(id).obs
           mine(c) == Len(c) >= 2 /\ c[2] = Case(id).test
           made == SelectSeq(started, mine)
           log == [i \in DOMAIN made |-> Tail(made[i])] IN
       IF Same(o.log, log) /\ Same(o.out, Printed) /\ IF code = Usage THEN o.code # 0 ELSE o.code = code
       THEN Accept(Case(id)) ELSE Reject(Case(id), [code |-> code, log |-> log, out |-> Printed])
Next == Read \/ Go \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
