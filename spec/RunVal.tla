------------------------------- MODULE RunVal -------------------------------
(* Recorded runs of many tests, as behaviours of Run. A record has the tests,   *)
(* each with how its attempts end (NEVER: they do not), and the events written  *)
(* down by the tests themselves, in their order: B when an attempt begins, E    *)
(* when it ends. When a run was led, attempts were made to wait until as many   *)
(* were running as can. Steps that leave no event are taken when they have to.  *)
EXTENDS Judge, Run

VARIABLE at   \* the events read
vars == <<id, ph, at, pool, workers, queue, taken, busy, try, reports, broken>>

X == Case(id)
Event == X.events[at + 1]
Ending(t) == LET p == X.tests[t].plan IN p[IF try[t] < Len(p) THEN try[t] ELSE Len(p)]
(* NEVER does not end, HELD has ended, but left something that holds its output *)
Stuck == {t \in busy : Ending(t) \in {"NEVER", "HELD"}}

Init == JudgeInit /\ at = 0 /\ RunInit(<<>>, 1)
Read ==
    /\ ph = "asked" /\ ph' = "run" /\ UNCHANGED <<id, at>>
    /\ pool' = [t \in DOMAIN X.tests |-> [sel |-> X.tests[t].sel, kind |-> X.tests[t].kind, told |-> X.tests[t].told,
                                          retries |-> X.tests[t].retries, xfail |-> X.tests[t].xfail]]
    /\ workers' = X.workers /\ queue' = DOMAIN X.tests /\ taken' = {} /\ busy' = {}
    /\ try' = [t \in DOMAIN X.tests |-> 0] /\ reports' = <<>> /\ broken' = FALSE

Quiet == UNCHANGED <<id, ph, at>>
Eaten == at' = at + 1 /\ UNCHANGED <<id, ph>>
(* the status the test was last reported with *)
Seen(t) == {g \in DOMAIN X.obs.groups : \E i \in DOMAIN X.obs.groups[g].tests : X.obs.groups[g].tests[i] = t}
Label(s) ==
    CASE s = "EXCLUDED" -> "Excluded" [] s = "SKIPPED" -> "Skipped" [] s = "UNSUPPORTED" -> "Unsupported"
      [] s = "PASS" -> "Passed" [] s = "FLAKYPASS" -> "Passed With Retry" [] s = "XFAIL" -> "Failed As Expected"
      [] s = "UNRESOLVED" -> "Unresolved" [] s = "TIMEOUT" -> "Timed Out" [] s = "FAIL" -> "Failed" [] s = "XPASS" -> "Unexpectedly Passed"
SeenAs(t, s) == \E g \in Seen(t) : X.obs.groups[g].label = Label(s)
Runnable(t) == pool[t].sel /\ pool[t].kind = "run"
Full == ~Free \/ \A t \in queue : ~Runnable(t)

Expire(t) == End(t, IF Ending(t) = "HELD" /\ SeenAs(t, "PASS") THEN "PASS" ELSE "TIMEOUT")
(* What an event asks for *)
ForBegin(t) ==
    \/ t \in taken /\ Begin(t) /\ Eaten
    \/ t \in queue /\ Free /\ Take(t) /\ Quiet
    \/ t \in queue /\ ~Free /\ Stuck # {} /\ X.limit > 0 /\ Expire(CHOOSE u \in Stuck : TRUE) /\ Quiet
ForEnd(t) ==
    /\ t \in busy /\ (X.led => Full) /\ Ending(t) # "NEVER"
    /\ IF Ending(t) = "HELD" THEN UNCHANGED running ELSE End(t, Ending(t))
    /\ Eaten
Follow == at < Len(X.events) /\ IF Event.k = "B" THEN ForBegin(Event.t) ELSE ForEnd(Event.t)

Least(S) == CHOOSE t \in S : \A u \in S : t <= u
Quietly == {t \in queue : ~pool[t].sel \/ (pool[t].kind = "told" /\ ~SeenAs(t, "SKIPPED") /\ (X.quiet \/ Seen(t) # {}))}
Breaking == {t \in queue : pool[t].sel /\ pool[t].kind = "breaks" /\ SeenAs(t, "UNRESOLVED")}
Rounding ==
    /\ at = Len(X.events) /\ Quiet
    /\ IF Stuck # {} THEN X.limit > 0 /\ Expire(Least(Stuck))
       ELSE IF \E t \in taken : pool[t].kind # "breaks" \/ ~pool[t].sel
            THEN LET t == Least({t \in taken : pool[t].kind # "breaks" \/ ~pool[t].sel}) IN PassBy(t) \/ Tell(t)
       ELSE IF Quietly # {} THEN Take(Least(Quietly))
       ELSE IF Breaking # {} THEN Take(Least(Breaking))
       ELSE taken # {} /\ Break(Least(taken))

(* What is printed *)
Shown(s) == s # "EXCLUDED" /\ (s \in Failing \/ ~X.quiet \/ X.all)
BreakOf(t) == pool[t].kind = "breaks"
Bag(xs) == [x \in {xs[i] : i \in DOMAIN xs} |-> Cardinality({i \in DOMAIN xs : xs[i] = x})]
LinesRight ==
    LET ls == SelectSeq(reports, LAMBDA r : Shown(r.s) /\ ~BreakOf(r.t))
        os == SelectSeq(X.obs.lines, LAMBDA r : ~BreakOf(r.t)) IN
    Bag(ls) = Bag([i \in DOMAIN os |-> [t |-> os[i].t, s |-> os[i].s]])
GroupsRight ==
    LET want == {s \in Statuses : Became(s) # {} /\ (s \in Failing \/ ~X.quiet)} IN
    /\ Len(X.obs.groups) = Cardinality(want)
    /\ \A s \in want : \E g \in DOMAIN X.obs.groups :
        LET G == X.obs.groups[g] IN
        /\ G.label = Label(s) /\ G.count = Cardinality(Became(s))
        /\ Len(G.tests) = G.count /\ {G.tests[i] : i \in DOMAIN G.tests} = Became(s)
Near(p, c, n) == LET d == p * n - c * 10000 IN (IF d < 0 THEN -d ELSE d) * 2 <= n
CountsRight ==
    LET want == {s \in Statuses : Became(s) # {}} n == Len(X.tests) IN
    /\ X.obs.total = n /\ Len(X.obs.counts) = Cardinality(want)
    /\ \A s \in want : \E c \in DOMAIN X.obs.counts :
        LET C == X.obs.counts[c] IN
        C.label = Label(s) /\ C.count = Cardinality(Became(s)) /\ Near(C.pct, C.count, n)
Right ==
    /\ LinesRight
    /\ X.obs.stray = 0
    /\ (X.obs.code = 0) = Succeeds
    /\ NoneSelected \/ (GroupsRight /\ CountsRight)
    /\ X.obs.left = 0
Wrong == [lines |-> LinesRight, exit |-> (X.obs.code = 0) = Succeeds, groups |-> NoneSelected \/ GroupsRight,
          counts |-> NoneSelected \/ CountsRight, reports |-> reports, left |-> X.obs.left]

Go == ph = "run" /\ (Follow \/ Rounding)
End1 ==
    /\ ph = "run" /\ ~ENABLED Go /\ ph' = "done" /\ UNCHANGED <<id, at>> /\ UNCHANGED running
    /\ IF at = Len(X.events) /\ Over
       THEN IF Right THEN Accept(X) ELSE Reject(X, Wrong)
       ELSE Reject(X, [event |-> at + 1, queue |-> queue, taken |-> taken, running |-> busy, reports |-> reports])
Next == Read \/ Go \/ End1
Spec == Init /\ [][Next]_vars
=============================================================================
