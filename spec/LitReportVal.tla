---------------------------- MODULE LitReportVal ----------------------------
(* What is shown of one test: how it ended, and what it wrote. The machine of  *)
(* LitRun tells which commands its last attempt started, and their own words   *)
(* what they wrote. A test that is a script has every run line announced before *)
(* it is run, and every command traced; what is more, one that is unsupported  *)
(* shows the conditions that are to blame.                                     *)
EXTENDS LitRunVal

(* An executable test is one command list of its own, without lines *)
ExePlan(x) ==
    LET l == CommandList(x.text) IN
    IF l.st = "skip" THEN NoPlan
    ELSE [skip |-> FALSE, bad |-> FALSE, unmet |-> FALSE, unsup |-> FALSE, noexec |-> x.noexec, badsub |-> FALSE,
          xfail |-> FALSE, retries |-> 0, lines |-> <<l.l>>]

(* ------------------------------- what is written ------------------------------- *)
Hex(c) == IF Digit(c) THEN c - 48 ELSE c - 87
RECURSIVE Bytes(_)
(* A byte that is not part of any text is shown as the replacement character *)
Bytes(w) == IF w = <<>> THEN <<>>
            ELSE LET b == Hex(w[1]) * 16 + Hex(w[2]) IN <<IF b > 127 THEN 65533 ELSE b>> \o Bytes(SubSeq(w, 3, Len(w)))
MUCH == 57349
Written(w) ==
    LET t == SubSeq(w, 3, Len(w)) IN
    CASE w[2] = 61 -> Append(t, NL) [] w[2] = 45 -> t [] w[2] = 120 -> Bytes(t) [] w[2] = 122 -> <<MUCH>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Wrote(a, c) ==
    IF a[1] # SAY THEN <<>>
    ELSE LET f(w) == w[1] = c
             ws == SelectSeq(Tail(a), f) IN Cat([i \in DOMAIN ws |-> Written(ws[i])])

(* A command is traced with its words between blanks, quoted or not; where other characters appear, lines are not told apart *)
Bare(c) == NameC(c) \/ Digit(c) \/ c \in {32, 37, 43, 44, 45, 46, 47, 58, 64} \/ c \in 57345..57348
IsBare(w) == \A i \in DOMAIN w : Bare(w[i])
Trace(a) ==
    <<43>> \o (IF \A i \in DOMAIN a : IsBare(a[i]) THEN Cat([i \in DOMAIN a |-> <<32>> \o a[i]]) ELSE <<32, 63>>) \o <<NL>>

RECURSIVE Numeral(_)
Numeral(n) == (IF n < 10 THEN <<>> ELSE Numeral(n \div 10)) \o <<48 + (n % 10)>>
RUNAT == <<82, 85, 78, 32, 97, 116, 32, 108, 105, 110, 101, 32>>     \* RUN at line
Announced(n, t) == RUNAT \o Numeral(n) \o <<58, 32>> \o t \o <<NL>>

(* ---------------------------------- reports ---------------------------------- *)
Last == LET f(e) == e.try = try IN SelectSeq(log, f)
RunLines(x) == LET f(c) == c.k = "run" IN SelectSeq(ReadScript(x.text).cmds, f)
Texts(x) == Expanded(ReadScript(x.text), Given(x)).cmds
OutOf(x) == LET l == Last IN Cat([i \in DOMAIN l |-> Wrote(l[i].a, 111)])
ErrOf(x) ==
    LET l == Last
        rl == RunLines(x)
        ts == Texts(x)
        said(i) == IF i > 1 /\ l[i - 1].n = l[i].n THEN <<>> ELSE Announced(rl[l[i].n].n, ts[l[i].n]) IN
    Cat([i \in DOMAIN l |-> (IF x.exe THEN <<>> ELSE said(i) \o Trace(l[i].a)) \o Wrote(l[i].a, 101)])
(* The code the last command ended with, none when it was killed *)
CodeOf(x) == LET e == EndOf(log) IN IF e \in {<<107>>, <<104>>} THEN -1 ELSE NatOf(e)

(* The conditions to blame, as they are shown: the same as they were given *)
RECURSIVE SameCond(_, _)
SameCond(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "lit" -> a.v = b.v [] a.k = "var" -> a.n = b.n [] a.k = "rx" -> TRUE
         [] a.k = "not" -> SameCond(a.a, b.a) [] OTHER -> SameCond(a.a, b.a) /\ SameCond(a.b, b.b)
FirstOf(t, c) == {i \in DOMAIN t : t[i] = c /\ \A j \in 1..(i - 1) : t[j] # c}
SaysWhy(x, t) ==
    LET s == ReadScript(x.text)
        fs == {x.features[i] : i \in DOMAIN x.features}
        blamed == IF plan.unmet THEN LET f(e) == ~Truth(e, fs) IN SelectSeq(s.req, f)
                  ELSE LET f(e) == Truth(e, fs) IN SelectSeq(s.unsup, f)
        given == \E i \in FirstOf(t, 58) :
            LET c == Conditions(Split(SubSeq(t, i + 1, Len(t)), 44, 1, 1), <<>>) IN
            c.st = "skip" \/ (c.st = "ok" /\ Len(c.l) = Len(blamed) /\ \A j \in DOMAIN blamed : SameCond(c.l[j], blamed[j])) IN
    given

Shown(x) == x.show = "a" \/ (x.show = "v" /\ status \in Failing)
None == [status |-> status, shown |-> FALSE, code |-> 0, time |-> "", out |-> <<>>, err |-> <<>>]
Report(x) ==
    IF ~Shown(x) THEN None
    ELSE IF log # <<>>
         THEN [status |-> status, shown |-> TRUE, code |-> CodeOf(x), time |-> IF status = "TIMEOUT" THEN "timeout" ELSE "elapsed",
               out |-> OutOf(x), err |-> ErrOf(x)]
    ELSE [status |-> status, shown |-> TRUE, code |-> -1, time |-> "", out |-> <<>>,
          err |-> IF status = "PASS" THEN <<>>
                  ELSE IF (status = "UNSUPPORTED" /\ SaysWhy(x, x.obs.err)) \/ (status = "UNRESOLVED" /\ x.obs.err # <<>>) THEN x.obs.err
                  ELSE <<63>>]

TwoLines == \E i \in DOMAIN log : \E j \in DOMAIN log[i].a : \E k \in DOMAIN log[i].a[j] : log[i].a[j][k] = NL
Read2 ==
    /\ ph = "asked"
    /\ LET x == Case(id)
           p == IF x.exe THEN ExePlan(x) ELSE PlanOf(x) IN
       IF p.skip THEN Leave(x) /\ ph' = "done" /\ UNCHANGED run
       ELSE ph' = "run" /\ plan' = p /\ UNCHANGED <<pc, try, ln, cm, last, log, tries, status>>
    /\ UNCHANGED id
End2 ==
    /\ ph = "run" /\ pc = "done" /\ ph' = "done"
    /\ UNCHANGED id /\ UNCHANGED run
    /\ Compare(Case(id), Report(Case(id)), TwoLines)
Next2 == Read2 \/ Go \/ End2
Spec2 == Init /\ [][Next2]_vars
=============================================================================
