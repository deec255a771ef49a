----------------------------- MODULE FileCheck -----------------------------
(* A check file applied to an input: the labels cut the input into regions,   *)
(* then the directives of every region are applied in order from a cursor.    *)
(* One step is one label, one directive, or one member of a CHECK-DAG group.  *)
EXTENDS Pattern

CONSTANTS CaseAt(_), CaseIds(_)      \* the cases, and CaseIds(0): which there are
(* A case: [id, in |-> bytes, ds |-> directives, opt, env |-> variables given  *)
(* on the command line, imp |-> patterns excluded implicitly]. A directive:    *)
(* [t |-> "plain" | "next" | "same" | "empty" | "not" | "dag" | "count" |      *)
(* "label", n |-> how often, ps |-> pattern, ln |-> line it is written on].    *)

VARIABLES k,        \* which case
          ph,       \* "label", "body" or "done"
          di,       \* directive to apply next
          cur,      \* offset behind the latest match
          fin,      \* end of the region being checked
          regs,     \* regions found: [s, e, first, last (directives), m (label match)]
          bi,       \* region being checked
          env,      \* variable bindings
          nots,     \* excluded patterns waiting for the end of their stretch
          grp,      \* members of the current CHECK-DAG group still to match
          gm,       \* what the members of the group matched so far
          out,      \* matches, [ln, s, e, b |-> variables bound]
          ok        \* nothing has failed yet
vars == <<k, ph, di, cur, fin, regs, bi, env, nots, grp, gm, out, ok>>

c == CaseAt(k)
S == c.in
IC == c.opt.icase
Global(n) == SubSeq(n, 1, 1) = "$"
Labels == SelectSeq([i \in DOMAIN c.ds |-> i], LAMBDA i : c.ds[i].t = "label")

Init ==
    /\ k \in CaseIds(0)
    /\ ph = "label" /\ di = 1 /\ cur = 0 /\ fin = Len(c.in)
    /\ regs = <<[s |-> 0, e |-> Len(c.in), first |-> 1, last |-> Len(c.ds), m |-> NoMatch]>>
    /\ bi = 0 /\ env = c.env /\ nots = <<>> /\ grp = {} /\ gm = {} /\ out = <<>>
    /\ ok = (c.opt.allowempty \/ c.in # <<>>)

(* A check file that cannot be used: what relates to a previous match has none. *)
Malformed ==
    \E i \in DOMAIN c.ds :
        /\ c.ds[i].t \in {"next", "same", "empty"}
        /\ \A j \in 1..(i - 1) : c.ds[j].t = "not"

(* What a match binds. *)
Binds(ps, e) == {<<ps[i].n, e[ps[i].n]>> :
                   i \in {j \in DOMAIN ps : ps[j].k = "def" \/ (ps[j].k = "num" /\ ps[j].n # "")}}

Fail == ok' = FALSE /\ ph' = "done"

(* The region before a label ends with the line before it; there is none if   *)
(* the label stands at the very end of the line of the one before.            *)
Before(p, from) == LET b == Bol(S, p) IN MaxOf({from, IF b = 0 THEN 0 ELSE b - 1})

(* Labels come first, each behind the line of the one before it. *)
LabelStep ==
    /\ ph = "label" /\ ok
    /\ UNCHANGED <<k, fin, bi, env, nots, grp, gm, out>>
    /\ LET n == Len(regs) IN
       IF n > Len(Labels)
       THEN /\ ph' = "body" /\ UNCHANGED <<di, cur, regs, ok>>
       ELSE LET d == Labels[n]
                m == Find(c.ds[d].ps, S, cur, Len(S), IC, <<>>) IN
            IF ~Found(m) THEN Fail /\ UNCHANGED <<di, cur, regs>>
            ELSE /\ cur' = Eol(S, m.s)
                 /\ regs' = Append([regs EXCEPT ![n].last = d - 1, ![n].e = Before(m.s, regs[n].s)],
                                   [s |-> Eol(S, m.s), e |-> Len(S), first |-> d + 1,
                                    last |-> Len(c.ds), m |-> [ln |-> c.ds[d].ln, s |-> m.s, e |-> m.e, b |-> {}]])
                 /\ UNCHANGED <<ph, di, ok>>

(* A pattern excluded from [a, b) occurs there. *)
Excluded(a, b, e) ==
    \E i \in DOMAIN nots : Found(Find(nots[i], S, a, b, IC, e))
(* All of them have a meaning. *)
NotsDefined(e) == \A i \in DOMAIN nots : Defined(nots[i], e)

EnterRegion ==
    /\ ph = "body" /\ ok
    /\ IF bi = 0 THEN TRUE ELSE di > regs[bi].last
    /\ grp = {}
    /\ UNCHANGED <<k, regs, grp, gm>>
    /\ IF bi > 0 /\ nots # <<>> /\ (~NotsDefined(env) \/ Excluded(cur, fin, env))
       THEN Fail /\ UNCHANGED <<di, cur, fin, bi, env, nots, out>>
       ELSE IF bi = Len(regs)
       THEN ph' = "done" /\ nots' = <<>> /\ UNCHANGED <<di, cur, fin, bi, env, out, ok>>
       ELSE LET r == regs[bi + 1] IN
            /\ bi' = bi + 1 /\ di' = r.first /\ cur' = r.s /\ fin' = r.e
            /\ nots' = c.imp
            /\ env' = IF c.opt.scope /\ bi > 0
                      THEN [n \in {x \in DOMAIN env : Global(x) \/ (x \in DOMAIN c.env)}
                              |-> IF Global(n) THEN env[n] ELSE c.env[n]]
                      ELSE env
            /\ out' = IF bi > 0 THEN Append(out, r.m) ELSE out
            /\ UNCHANGED <<ph, ok>>

D == c.ds[di]
InBody == ph = "body" /\ ok /\ bi > 0 /\ di <= regs[bi].last /\ grp = {}

NotStep ==
    /\ InBody /\ D.t = "not"
    /\ nots' = Append(nots, D.ps) /\ di' = di + 1
    /\ UNCHANGED <<k, ph, cur, fin, regs, bi, env, grp, gm, out, ok>>

(* Where a directive other than CHECK-NOT and CHECK-DAG may match. *)
Window(d) ==
    CASE d.t \in {"plain", "count"} -> [a |-> cur, b |-> fin]
      [] d.t = "same" -> [a |-> cur, b |-> IF Eol(S, cur) < fin THEN Eol(S, cur) ELSE fin]
      [] d.t \in {"next", "empty"} ->
            LET l == Eol(S, cur) IN
            IF l >= fin \/ (d.t = "next" /\ l + 1 >= fin)
            THEN [a |-> 1, b |-> 0]                      \* there is no next line
            ELSE [a |-> l + 1, b |-> IF Eol(S, l + 1) < fin THEN Eol(S, l + 1) ELSE fin]

MatchIn(d, w) ==
    IF w.a > w.b THEN NoMatch
    ELSE IF d.t = "empty" THEN (IF w.a = w.b THEN [s |-> w.a, e |-> w.a, env |-> env] ELSE NoMatch)
    ELSE Find(d.ps, S, w.a, w.b, IC, env)

RECURSIVE Times(_, _, _, _)
(* n matches one after the other from offset a. *)
Times(d, n, a, acc) ==
    IF n = 0 THEN acc
    ELSE LET m == Find(d.ps, S, a, fin, IC, IF acc = <<>> THEN env ELSE acc[Len(acc)].env) IN
         IF Found(m) THEN Times(d, n - 1, m.e, Append(acc, m)) ELSE <<>>

PositiveStep ==
    /\ InBody /\ D.t \in {"plain", "next", "same", "empty", "count"}
    /\ UNCHANGED <<k, fin, regs, bi, grp, gm>>
    /\ LET undef == D.t # "empty" /\ ~Defined(D.ps, env)
           ms == IF undef THEN <<>>
                 ELSE IF D.t = "count" THEN Times(D, D.n, cur, <<>>)
                 ELSE LET m == MatchIn(D, Window(D)) IN IF Found(m) THEN <<m>> ELSE <<>>
           after == IF ms = <<>> THEN env ELSE ms[Len(ms)].env
       IN IF ms = <<>> \/ (nots # <<>> /\ (~NotsDefined(after) \/ Excluded(cur, Head(ms).s, after)))
          THEN Fail /\ UNCHANGED <<di, cur, env, nots, out>>
          ELSE /\ cur' = ms[Len(ms)].e
               /\ env' = ms[Len(ms)].env
               /\ out' = out \o [i \in DOMAIN ms |-> [ln |-> D.ln, s |-> ms[i].s, e |-> ms[i].e,
                                                      b |-> Binds(D.ps, ms[i].env)]]
               /\ nots' = c.imp /\ di' = di + 1
               /\ UNCHANGED <<ph, ok>>

(* A CHECK-DAG group: neighbouring CHECK-DAG directives. Its members claim    *)
(* their matches in an order left open; each claims the leftmost match that   *)
(* overlaps none claimed before.                                              *)
RECURSIVE DagRun(_)
DagRun(i) == IF i <= regs[bi].last /\ c.ds[i].t = "dag" THEN {i} \cup DagRun(i + 1) ELSE {}

DagOpen ==
    /\ InBody /\ D.t = "dag"
    /\ grp' = DagRun(di) /\ gm' = {}
    /\ UNCHANGED <<k, ph, di, cur, fin, regs, bi, env, nots, out, ok>>

Overlap(m, x) == (m.s < x.e /\ x.s < m.e) \/ (m.s = x.s)
RECURSIVE FindFree(_, _)
FindFree(ps, a) ==
    LET m == Find(ps, S, a, fin, IC, env) IN
    IF ~Found(m) THEN m
    ELSE IF \E x \in gm : Overlap(m, x) THEN FindFree(ps, m.s + 1) ELSE m

DagClaim ==
    /\ ph = "body" /\ ok /\ grp # {}
    /\ UNCHANGED <<k, fin, regs, bi, nots, cur, out, di>>
    /\ \E i \in grp :
         LET m == IF Defined(c.ds[i].ps, env) THEN FindFree(c.ds[i].ps, cur) ELSE NoMatch IN
         IF Found(m)
         THEN /\ gm' = gm \cup {[ln |-> c.ds[i].ln, s |-> m.s, e |-> m.e,
                                b |-> Binds(c.ds[i].ps, m.env)]}
              /\ grp' = IF grp = {i} THEN {-1} ELSE grp \ {i}
              /\ env' = m.env /\ UNCHANGED <<ph, ok>>
         ELSE Fail /\ UNCHANGED <<gm, grp, env>>

RECURSIVE Sorted(_)
Sorted(ms) == IF ms = {} THEN <<>>
              ELSE LET x == CHOOSE y \in ms : \A z \in ms : y.ln <= z.ln IN <<x>> \o Sorted(ms \ {x})

DagClose ==
    /\ ph = "body" /\ ok /\ grp = {-1}
    /\ UNCHANGED <<k, fin, regs, bi, env>>
    /\ LET first == MinOf({m.s : m \in gm}) IN
       IF nots # <<>> /\ (~NotsDefined(env) \/ Excluded(cur, first, env))
       THEN Fail /\ UNCHANGED <<di, cur, nots, out, grp, gm>>
       ELSE /\ grp' = {} /\ gm' = {}
            /\ cur' = MaxOf({m.e : m \in gm})
            /\ di' = di + Cardinality(gm)
            /\ out' = out \o Sorted(gm)
            /\ nots' = c.imp /\ UNCHANGED <<ph, ok>>

Done == ph = "done"
Finish == /\ ~ok /\ ph # "done" /\ ph' = "done"
          /\ UNCHANGED <<k, di, cur, fin, regs, bi, env, nots, grp, gm, out, ok>>

Next == \/ LabelStep \/ EnterRegion \/ NotStep \/ PositiveStep
        \/ DagOpen \/ (grp # {-1} /\ DagClaim) \/ DagClose \/ Finish

(* ------------------------------- properties ------------------------------- *)
TypeOK == ph \in {"label", "body", "done"} /\ cur \in 0..Len(S) /\ fin \in 0..Len(S)

(* Of the directives that are not CHECK-DAG, matches follow the file's order   *)
(* and never overlap.                                                          *)
KindOf(m) == c.ds[CHOOSE i \in DOMAIN c.ds : c.ds[i].ln = m.ln].t
Ordered ==
    \A i, j \in DOMAIN out :
        (i < j /\ KindOf(out[i]) # "label" /\ KindOf(out[j]) \notin {"dag", "label"})
            => out[i].e <= out[j].s

InRegion == \A i \in DOMAIN out : out[i].s <= out[i].e /\ out[i].e <= Len(S)
=============================================================================
