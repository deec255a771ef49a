----------------------------- MODULE LitRunMC -----------------------------
(* Every run of every test of a bounded kind, whatever its commands do.        *)
EXTENDS LitRun
CONSTANTS MaxLines, MaxCmds, MaxRetries

Ops == {<<59>>, <<38, 38>>, <<124, 124>>}
LineOf(os) == [i \in 1..(Len(os) + 1) |-> [o |-> IF i = 1 THEN <<59>> ELSE os[i - 1], a |-> i]]
AllLines == UNION {{LineOf(os) : os \in [1..n -> Ops]} : n \in 0..(MaxCmds - 1)}
Scripts == UNION {[1..n -> AllLines] : n \in 1..MaxLines}
Plans == [bad : {FALSE}, unmet : {FALSE}, unsup : {FALSE}, noexec : {FALSE}, badsub : {FALSE},
          xfail : BOOLEAN, retries : 0..MaxRetries, lines : Scripts]
    \cup [bad : BOOLEAN, unmet : BOOLEAN, unsup : BOOLEAN, noexec : BOOLEAN, badsub : BOOLEAN,
          xfail : BOOLEAN, retries : {0}, lines : {<<LineOf(<<>>)>>}]
Init == \E p \in Plans : RunInit(p)
Next == Look \/ Start \/ PassOver \/ Judged \/ \E l \in {"ok", "fail", "kill", "hang", "quit", "quitfail"} : Ended(l)
Spec == Init /\ [][Next]_run /\ WF_run(Next)

Over == pc = "done"
Ran == log # <<>>
(* L01 *)
NotRunWhenNotMet == plan.unmet \/ plan.unsup \/ plan.bad \/ plan.noexec \/ plan.badsub => ~Ran
StatusOfWhatIsNotRun ==
    Over /\ ~Ran => status = IF plan.bad THEN "UNRESOLVED" ELSE IF plan.unmet \/ plan.unsup THEN "UNSUPPORTED"
                             ELSE IF plan.noexec THEN "PASS" ELSE "UNRESOLVED"
Expectation ==
    Over /\ Ran => LET r == tries[Len(tries)] IN
        /\ (status \in {"PASS", "FLAKYPASS"}) = (r = "PASS" /\ ~plan.xfail)
        /\ (status = "XPASS") = (r = "PASS" /\ plan.xfail)
        /\ (status = "FAIL") = (r = "FAIL" /\ ~plan.xfail)
        /\ (status = "XFAIL") = (r = "FAIL" /\ plan.xfail)
        /\ (status = "UNRESOLVED") = (r = "UNRESOLVED")
        /\ (status = "TIMEOUT") = (r = "TIMEOUT")
(* L02 *)
Bounded == try <= plan.retries + 1
AgainOnlyAfterFailure == \A i \in 1..(try - 1) : tries[i] = "FAIL"
StopsAtFirstSuccess == \A i \in DOMAIN tries : tries[i] # "FAIL" => i = try
AllRetriesUsed == Over /\ Ran /\ tries[Len(tries)] = "FAIL" => try = plan.retries + 1
Flaky == Over => ((status = "FLAKYPASS") = (Ran /\ ~plan.xfail /\ tries[Len(tries)] = "PASS" /\ try > 1))
(* L03: a line begins only when the one before succeeded *)
InOrder == [][pc = "start" /\ pc' = "start" /\ ln' # ln => \/ ln' = ln + 1 /\ last' = "ok" /\ cm = Len(plan.lines[ln])
                                                           \/ ln' = 1 /\ try' = try + 1]_run
LineAfterSuccess == [][ln' = ln + 1 /\ ln > 0 => last' = "ok"]_run
PassMeansAllLines == \A i \in DOMAIN tries : tries[i] = "PASS" /\ last # "quit" /\ i = Len(tries) => ln = Len(plan.lines)
(* L11: what an attempt ran is a start of the script, in its order *)
ReportOrder ==
    \A i \in DOMAIN log : \A j \in 1..(i - 1) :
        log[j].try < log[i].try \/ (log[j].try = log[i].try /\ log[j].n <= log[i].n)
EveryLineBegun == \A i \in DOMAIN log : \A n \in 1..log[i].n : \E j \in 1..i : log[j].try = log[i].try /\ log[j].n = n
EveryTryRan == Over /\ Ran => \A t \in 1..try : \E j \in DOMAIN log : log[j].try = t
Ends == <>Over
=============================================================================
