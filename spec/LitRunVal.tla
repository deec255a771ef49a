----------------------------- MODULE LitRunVal -----------------------------
(* Recorded runs of real tests. The text of a test and its settings give the   *)
(* plan, the machine of LitRun runs it, and what the commands do is told by    *)
(* their own words:                                                            *)
(*     r TEST SLOT CODES ...   writes down its words, and ends with the n-th   *)
(*                             of the codes when it is run for the n-th time   *)
(*     say PIECES ...          writes the pieces, and ends as the last one says *)
(*     true, false, exit N                                                     *)
(* A piece is o or e, for the output it goes to, and =TEXT for a line of text,  *)
(* -TEXT for text, xHEX for bytes, z for much; =N is how it ends, k and h as for r.      *)
EXTENDS Judge, LitRun, ShScript

(* the substitutions a test is given: those of its configuration, then others *)
Subst(k, v) == [k |-> k, m |-> k, v |-> v, w |-> {}]
Given(x) ==
    LET sub(i) == [k |-> x.subs[i].k, m |-> x.subs[i].m, v |-> x.subs[i].v, w |-> {x.subs[i].w[j] : j \in DOMAIN x.subs[i].w}]
        more(i) == Subst(x.more[i].k, x.more[i].v) IN
    Over([i \in DOMAIN x.subs |-> sub(i)], [i \in DOMAIN x.more |-> more(i)])

NoPlan == [skip |-> TRUE]
PlanOf(x) ==
    LET s == ReadScript(x.text)
        fs == {x.features[i] : i \in DOMAIN x.features} IN
    IF s.skip THEN NoPlan
    ELSE LET e == Expanded(s, Given(x))
             ls == [i \in DOMAIN e.cmds |-> CommandList(e.cmds[i])]
             unmet == \E i \in DOMAIN s.req : ~Truth(s.req[i], fs)
             unsup == \E i \in DOMAIN s.unsup : Truth(s.unsup[i], fs)
             runs == ~(s.bad \/ unmet \/ unsup \/ x.noexec \/ e.bad) IN
         IF runs /\ \E i \in DOMAIN ls : ls[i].st = "skip" THEN NoPlan
         ELSE [skip |-> FALSE, bad |-> s.bad, unmet |-> unmet, unsup |-> unsup, noexec |-> x.noexec,
               badsub |-> e.bad, xfail |-> \E i \in DOMAIN s.xfail : Truth(s.xfail[i], fs),
               retries |-> IF s.retries < 0 THEN 0 ELSE s.retries,
               lines |-> IF runs THEN [i \in DOMAIN ls |-> ls[i].l] ELSE <<>>]

R == <<114>>
TRUEW == <<116, 114, 117, 101>>
FALSEW == <<102, 97, 108, 115, 101>>
EXITW == <<101, 120, 105, 116>>
IsNat(w) == w # <<>> /\ Len(w) <= 2 /\ \A i \in DOMAIN w : Digit(w[i])
(* One or more digits or a k, between underscores *)
CodesOf(w) == Split(w, 95, 1, 1)
GoodCodes(cs) == \A i \in DOMAIN cs : cs[i] = <<107>> \/ IsNat(cs[i])
SAY == <<115, 97, 121>>
LastOf(q) == q[Len(q)]
Says(w) == Len(w) >= 2 /\ w[1] \in {111, 101} 
           /\ \/ w[2] \in {61, 45}
              \/ w[2] = 122 /\ Len(w) = 2
              \/ w[2] = 120 /\ Len(w) % 2 = 0 /\ \A i \in 3..Len(w) : Digit(w[i]) \/ w[i] \in 97..102
IsEnd(w) == Len(w) >= 2 /\ w[1] = 61 /\ (Tail(w) \in {<<107>>, <<104>>} \/ IsNat(Tail(w)))
GoodSay(a) == a[1] = SAY /\ \A i \in 2..Len(a) : Says(a[i]) \/ (i = Len(a) /\ IsEnd(a[i]))
Same2(a, b) == a[1] = R /\ Len(a) >= 3 /\ a[2] = b[2] /\ a[3] = b[3]
(* How the command just started (the last of the log) ends: a number, k, h, or <<>> when it is none of ours *)
EndOf(lg) ==
    LET a == lg[Len(lg)].a IN
    IF a = <<TRUEW>> THEN <<48>>
    ELSE IF a = <<FALSEW>> THEN <<49>>
    ELSE IF Len(a) = 2 /\ a[1] = EXITW /\ IsNat(a[2]) THEN a[2]
    ELSE IF a[1] = R /\ Len(a) >= 4 /\ GoodCodes(CodesOf(a[4]))
         THEN LET n == Cardinality({i \in DOMAIN lg : Same2(lg[i].a, a)})
                  cs == CodesOf(a[4]) IN
              cs[IF n > Len(cs) THEN Len(cs) ELSE n]
    ELSE IF GoodSay(a) THEN IF Len(a) > 1 /\ IsEnd(LastOf(a)) THEN Tail(LastOf(a)) ELSE <<48>>
    ELSE <<>>
OutcomeOf(lg) ==
    LET e == EndOf(lg) IN
    CASE e = <<>> -> "unknown" [] e = <<107>> -> "kill" [] e = <<104>> -> "hang"
      [] lg[Len(lg)].a[1] = EXITW -> IF NatOf(e) = 0 THEN "quit" ELSE "quitfail"
      [] OTHER -> IF NatOf(e) = 0 THEN "ok" ELSE "fail"

Recorded == LET f(e) == e.a[1] = R
                l == SelectSeq(log, f) IN [i \in DOMAIN l |-> Tail(l[i].a)]
vars == <<id, ph, plan, pc, try, ln, cm, last, log, tries, status>>
Init == JudgeInit /\ RunInit([skip |-> TRUE])
Read ==
    /\ ph = "asked"
    /\ LET p == PlanOf(Case(id)) IN
       IF p.skip THEN Leave(Case(id)) /\ ph' = "done" /\ UNCHANGED run
       ELSE ph' = "run" /\ plan' = p /\ UNCHANGED <<pc, try, ln, cm, last, log, tries, status>>
    /\ UNCHANGED id
Go ==
    /\ ph = "run" /\ pc # "done"
    /\ UNCHANGED id
    /\ IF pc = "wait" /\ OutcomeOf(log) = "unknown"
       THEN Leave(Case(id)) /\ ph' = "done" /\ UNCHANGED run
       ELSE /\ UNCHANGED ph
            /\ Look \/ Start \/ PassOver \/ Judged \/ (pc = "wait" /\ Ended(OutcomeOf(log)))
End ==
    /\ ph = "run" /\ pc = "done" /\ ph' = "done"
    /\ UNCHANGED id /\ UNCHANGED run
    /\ Compare(Case(id), [status |-> status, log |-> Recorded], FALSE)
Next == Read \/ Go \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
