------------------------------- MODULE RunMC -------------------------------
(* Every run of every small pool, with attempts that take their time, and a     *)
(* limit to it: 0 is none.                                                     *)
EXTENDS Run, TLC
CONSTANTS MaxTests, MaxWorkers, MaxRetries, Lens, Never, Limits

VARIABLES limit, age, len, ends
vars == <<pool, workers, queue, taken, busy, try, reports, broken, limit, age, len, ends>>

Kinds == [sel : {TRUE}, kind : {"run"}, told : {""}, retries : 0..MaxRetries, xfail : BOOLEAN]
    \cup [sel : {TRUE}, kind : {"told"}, told : {"UNSUPPORTED"}, retries : {0}, xfail : {FALSE}]
    \cup [sel : {TRUE}, kind : {"breaks"}, told : {""}, retries : {0}, xfail : {FALSE}]
    \cup [sel : {FALSE}, kind : {"run"}, told : {""}, retries : {0}, xfail : {FALSE}]
(* Pools that differ in the order of their tests only are the same *)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<k>> \o Listed(S \ {k})
ASSUME TLCSet(7, Listed(Kinds))
Pools == {[i \in 1..n |-> TLCGet(7)[p[i]]] : n \in 0..MaxTests, p \in {p \in [1..MaxTests -> 1..Cardinality(Kinds)] : \A i \in 1..(MaxTests - 1) : p[i] <= p[i + 1]}}

Init ==
    \E p \in Pools, w \in 1..MaxWorkers :
        /\ RunInit(p, w) /\ limit \in Limits
        /\ age = [t \in DOMAIN p |-> 0] /\ len = age /\ ends = [t \in DOMAIN p |-> <<>>]
Still == UNCHANGED <<limit, age, len, ends>>
Due(t) == t \in busy /\ age[t] = len[t]
Late(t) == t \in busy /\ limit > 0 /\ age[t] = limit
Ended(t, r) == End(t, r) /\ ends' = [ends EXCEPT ![t] = Append(@, [r |-> r, len |-> len[t]])] /\ UNCHANGED <<limit, age, len>>
Begun(t) == Begin(t) /\ age' = [age EXCEPT ![t] = 0] /\ \E l \in Lens \cup (IF limit > 0 THEN {Never} ELSE {}) : len' = [len EXCEPT ![t] = l] /\ UNCHANGED <<limit, ends>>
Tick == /\ busy # {} /\ \A t \in busy : ~Due(t) /\ ~Late(t)
        /\ age' = [t \in DOMAIN pool |-> IF t \in busy THEN age[t] + 1 ELSE age[t]]
        /\ UNCHANGED <<limit, len, ends>> /\ UNCHANGED running
Step(t) ==
    \/ Still /\ (Take(t) \/ PassBy(t) \/ Tell(t) \/ Break(t))
    \/ Begun(t)
    \/ Due(t) /\ \E r \in {"PASS", "FAIL", "UNRESOLVED"} : Ended(t, r)
    \/ Late(t) /\ Ended(t, "TIMEOUT")
Next == Tick \/ \E t \in DOMAIN pool : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Places(t) == Cardinality({i \in DOMAIN reports : reports[i].t = t})
EveryTestIsSomewhereOnce == \A t \in DOMAIN pool :
    (IF t \in queue THEN 1 ELSE 0) + (IF t \in taken THEN 1 ELSE 0) + (IF t \in busy THEN 1 ELSE 0) + Places(t) = 1
AtMostWorkers == Cardinality(Held) <= workers
NothingLost == Over => \A t \in DOMAIN pool : Cardinality({s \in Statuses : t \in Became(s)}) = 1
AllRunUnlessBroken == Over /\ ~broken => queue = {} /\ \A t \in DOMAIN pool : pool[t].sel /\ pool[t].kind = "run" => try[t] > 0
NotSelectedNotRun == \A t \in DOMAIN pool : ~pool[t].sel \/ pool[t].kind # "run" => try[t] = 0
OwnStatus == \A i \in DOMAIN reports : LET t == reports[i].t s == reports[i].s IN
    pool[t].sel /\ pool[t].kind = "run" =>
        LET l == ends[t][Len(ends[t])] IN
        /\ Len(ends[t]) = try[t]
        /\ \A j \in 1..(Len(ends[t]) - 1) : ends[t][j].r = "FAIL"
        /\ (s = "TIMEOUT") = (l.r = "TIMEOUT")
        /\ (s \in {"XPASS", "PASS", "FLAKYPASS"}) = (l.r = "PASS")
        /\ (s \in {"FAIL", "XFAIL"}) = (l.r = "FAIL")
        /\ s \in {"XPASS", "XFAIL"} => pool[t].xfail
ExitTells == Over => (Succeeds = (/\ \E t \in DOMAIN pool : pool[t].sel
                                  /\ \A t \in DOMAIN pool : \E s \in Statuses \ (Failing \cup {"SKIPPED"}) : t \in Became(s)))
(* L08 *)
WithinLimit == limit > 0 => \A t \in busy : age[t] <= limit
TimeoutOnlyWhenLate == \A t \in DOMAIN pool : \A j \in DOMAIN ends[t] : ends[t][j].r = "TIMEOUT" => limit > 0 /\ ends[t][j].len >= limit
InTimeNotAffected == \A t \in DOMAIN pool : \A j \in DOMAIN ends[t] : (limit = 0 \/ ends[t][j].len < limit) => ends[t][j].r # "TIMEOUT"
TimeoutNotRetried == \A t \in DOMAIN pool : \A j \in DOMAIN ends[t] : ends[t][j].r = "TIMEOUT" => j = try[t] /\ t \notin Held
Ends == <>Over
=============================================================================
