------------------------- MODULE FileCheckReport -------------------------
(* What a failed run of FileCheck blames: the check which the first of its    *)
(* errors names, and the place in the input it points at.                     *)
EXTENDS FileCheck

(* Whom a failed run may blame: [ln |-> line of the check, 0 if it was given   *)
(* on the command line, at |-> offset in the input, -1 if there is none].      *)
Nobody == {}
Check(i) == [ln |-> c.ds[i].ln, at |-> -1]

(* The excluded patterns waiting are those given on the command line, then     *)
(* the CHECK-NOT directives right before the directive to apply.               *)
NotLine(j) ==
    IF j <= Len(c.imp) THEN 0 ELSE c.ds[di - 1 - (Len(nots) - j)].ln
(* Of those, the ones that occur in [a, b), or have no meaning. *)
NotBlame(a, b, e) ==
    {[ln |-> NotLine(j), at |-> Find(nots[j], S, a, b, IC, e).s] :
        j \in {x \in DOMAIN nots : Defined(nots[x], e) /\ Found(Find(nots[x], S, a, b, IC, e))}}
    \cup {[ln |-> NotLine(j), at |-> -1] : j \in {x \in DOMAIN nots : ~Defined(nots[x], e)}}

(* A CHECK-SAME that is found further down may point at it. *)
Elsewhere(i) ==
    IF c.ds[i].t # "same" \/ ~Defined(c.ds[i].ps, env) THEN {}
    ELSE LET m == Find(c.ds[i].ps, S, cur, fin, IC, env) IN
         IF Found(m) THEN {[ln |-> c.ds[i].ln, at |-> m.s]} ELSE {}

PositiveBlame ==
    LET undef == D.t # "empty" /\ ~Defined(D.ps, env)
        ms == IF undef THEN <<>>
              ELSE IF D.t = "count" THEN Times(D, D.n, cur, <<>>)
              ELSE LET m == MatchIn(D, Window(D)) IN IF Found(m) THEN <<m>> ELSE <<>>
    IN IF ms = <<>> THEN {Check(di)} \cup Elsewhere(di)
       ELSE NotBlame(cur, Head(ms).s, ms[Len(ms)].env)

Blame ==
    IF ok \/ (c.in = <<>> /\ ~c.opt.allowempty) THEN Nobody
    ELSE IF bi = 0 THEN {Check(Labels[Len(regs)])}
    ELSE IF grp = {-1} THEN NotBlame(cur, MinOf({m.s : m \in gm}), env)
    ELSE IF grp # {}
    THEN {Check(i) : i \in {x \in grp : ~Defined(c.ds[x].ps, env)
                                         \/ ~Found(FindFree(c.ds[x].ps, cur))}}
    ELSE IF di > regs[bi].last THEN NotBlame(cur, fin, env)
    ELSE PositiveBlame

(* A check file that cannot be used names the directive that nothing precedes. *)
MalformedLines ==
    {c.ds[i].ln : i \in {x \in DOMAIN c.ds : /\ c.ds[x].t \in {"next", "same", "empty"}
                                             /\ \A j \in 1..(x - 1) : c.ds[j].t = "not"}}

(* ------------------------------- properties ------------------------------- *)
(* Every failure has a culprit, except an empty input; a culprit has not       *)
(* matched, and all that did stand before it, or in its group.                 *)
Culprit ==
    (ph = "done" /\ ~ok /\ c.in # <<>>) =>
        /\ Blame # {}
        /\ \A b \in Blame : b.at >= -1 /\ b.at <= Len(S)
        /\ \A b \in Blame : \A i \in DOMAIN out : out[i].ln # b.ln
=============================================================================
