--------------------------- MODULE CheckFaultVal ---------------------------
(* Recorded errors of the real FileCheck about check files that cannot be     *)
(* used: what they point at is to blame. Files that can be used, and the       *)
(* others being refused at all, are judged elsewhere.                          *)
EXTENDS CheckFault, Judge

FaultyOption(x) == \E i \in DOMAIN x.imp : PatternOf("not", x.imp[i], FALSE, 0).st # "ok"
(* obs: [verdict, places |-> << [k |-> "check" or "option", p |-> offset in the check file], .. >>, *)
(*       named |-> prefixes said not to be used]                                                     *)
Blamed(x, b, ls, fs) ==
    IF x.obs.places = <<>>
    THEN LET un == Unused(ls, x.opt) IN
         \/ x.opt.allowunused /\ ls = <<>>
         \/ /\ un # {} /\ ~x.opt.allowunused
            /\ {x.obs.named[i] : i \in DOMAIN x.obs.named} = {x.opt.prefixes[w] : w \in un}
    ELSE \A i \in DOMAIN x.obs.places :
            LET pl == x.obs.places[i] IN
            IF pl.k = "check" THEN \E f \in fs : Within(b, pl.p, f)
            ELSE pl.k = "option" /\ FaultyOption(x)

Answer ==
    LET x == Case(id)
        b == Canonical(x.check, x.opt.strict)
        ls == Lex(b, x.opt)
        fs == Faults(ls)
        nothing == fs = {} /\ ~FaultyOption(x) /\ ls # <<>> /\ (x.opt.allowunused \/ Unused(ls, x.opt) = {}) IN
    IF x.obs.verdict # "error" \/ nothing THEN Leave(x)
    ELSE IF Blamed(x, b, ls, fs) THEN Accept(x)
    ELSE Reject(x, [faults |-> fs])

Init == JudgeInit
Next == ph = "asked" /\ Answer /\ ph' = "done" /\ UNCHANGED id
Spec == Init /\ [][Next]_judge
=============================================================================
