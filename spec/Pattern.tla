------------------------------ MODULE Pattern ------------------------------
(* The patterns of check directives. A pattern is a sequence of pieces; its  *)
(* meaning at an offset is the sequence of its matches there, most preferred *)
(* first: every match is the offset where it ends with the variables bound.  *)
EXTENDS Text, Numeric

(* Regular expressions:                                                      *)
(*   [k |-> "lit", s]   the bytes s       [k |-> "set", c, neg]   one byte    *)
(*   [k |-> "seq", a]   one after other   [k |-> "alt", a]   first that works *)
(*   [k |-> "star", x] [k |-> "plus", x] [k |-> "opt", x]   greedy            *)
(*   [k |-> "bol"] [k |-> "eol"]   line edges of the whole text               *)
InSet(r, c, icase) ==
    LET hit == \/ c \in RangeOf(r.c)
               \/ (icase /\ \E d \in RangeOf(r.c) : LowerC(d) = LowerC(c))
    IN IF r.neg THEN ~hit ELSE hit

RECURSIVE RM(_, _, _, _, _), RMSeq(_, _, _, _, _), RMStar(_, _, _, _, _)
(* Ends of the matches of r in s starting at p and not passing lim, by preference. *)
RM(r, s, p, lim, ic) ==
    CASE r.k = "lit" ->
            LET e == p + Len(r.s) IN
            IF e <= lim /\ SameS(Slice(s, p, e), r.s, ic) THEN <<e>> ELSE <<>>
      [] r.k = "set" -> IF p < lim /\ InSet(r, At(s, p), ic) THEN <<p + 1>> ELSE <<>>
      [] r.k = "seq" -> RMSeq(r.a, s, p, lim, ic)
      [] r.k = "alt" -> Flat([i \in DOMAIN r.a |-> RM(r.a[i], s, p, lim, ic)])
      [] r.k = "opt" -> RM(r.x, s, p, lim, ic) \o <<p>>
      [] r.k = "star" -> RMStar(r.x, s, p, lim, ic)
      [] r.k = "plus" ->
            LET one == RM(r.x, s, p, lim, ic) IN
            Flat([i \in DOMAIN one |-> RMStar(r.x, s, one[i], lim, ic)])
      [] r.k = "bol" -> IF p = 0 \/ At(s, p - 1) = NL THEN <<p>> ELSE <<>>
      [] r.k = "eol" -> IF p = Len(s) \/ At(s, p) = NL THEN <<p>> ELSE <<>>
RMSeq(a, s, p, lim, ic) ==
    IF a = <<>> THEN <<p>>
    ELSE LET es == RM(Head(a), s, p, lim, ic) IN
         Flat([i \in DOMAIN es |-> RMSeq(Tail(a), s, es[i], lim, ic)])
RMStar(x, s, p, lim, ic) ==
    LET es == SelectSeq(RM(x, s, p, lim, ic), LAMBDA e : e > p) IN
    Flat([i \in DOMAIN es |-> RMStar(x, s, es[i], lim, ic)]) \o <<p>>

(* Pieces:                                                                    *)
(*   [k |-> "lit"/"set"/..]               a regular expression as above        *)
(*   [k |-> "def", n, x]                  bind n to the text matched by x      *)
(*   [k |-> "use", n]                     the text bound to n, literally       *)
(*   [k |-> "num", f, n, c, e]            a number written in format f, bound  *)
(*                                        to n (if not ""), equal to e if c    *)
(*   [k |-> "nuse", f, e]                 the value of e, written in format f  *)
(* An environment maps names to [t |-> "s", v |-> bytes] or                    *)
(* [t |-> "n", v |-> integer, f |-> format].                                   *)

(* Names a pattern needs before it can be matched, in order of appearance. *)
RECURSIVE NeedsP(_, _)
NeedsP(ps, have) ==
    IF ps = <<>> THEN {}
    ELSE LET x == Head(ps)
             here == CASE x.k = "use" -> {x.n} \ have
                       [] x.k = "nuse" -> ExprVars(x.e) \ have
                       [] x.k = "num" -> IF x.c THEN ExprVars(x.e) \ have ELSE {}
                       [] OTHER -> {}
             now == CASE x.k = "def" -> have \cup {x.n}
                      [] x.k = "num" /\ x.n # "" -> have \cup {x.n}
                      [] OTHER -> have
         IN here \cup NeedsP(Tail(ps), now)
Needs(ps) == NeedsP(ps, {})

(* The value of a substituted expression exists and its format can write it. *)
Writable(x, env) ==
    /\ EvalOk(x.e, env)
    /\ ExprFormat(x.f, x.e, env).t # "conflict"
    /\ CanRender(ExprFormat(x.f, x.e, env), Eval(x.e, env))

(* The value a captured number is to equal exists. *)
Comparable(x, env) == EvalOk(x.e, env) /\ ExprFormat(x.f, x.e, env).t # "conflict"

RECURSIVE MeaningP(_, _, _)
(* Expressions over what was bound before the pattern have a value. *)
MeaningP(ps, env, here) ==
    IF ps = <<>> THEN TRUE
    ELSE LET x == Head(ps)
             bound == IF x.k = "def" \/ (x.k = "num" /\ x.n # "") THEN here \cup {x.n} ELSE here IN
         /\ (x.k = "nuse" /\ ExprVars(x.e) \cap here = {}) => Writable(x, env)
         /\ (x.k = "num" /\ x.c /\ ExprVars(x.e) \cap here = {}) => Comparable(x, env)
         /\ MeaningP(Tail(ps), env, bound)

(* The pattern has a meaning in env. *)
Defined(ps, env) == Needs(ps) \subseteq DOMAIN env /\ MeaningP(ps, env, {})

Bind(env, n, v) == [m \in DOMAIN env \cup {n} |-> IF m = n THEN v ELSE env[m]]

(* A number in format f starting at p. A constrained one is the whole run of   *)
(* digits; a captured one may give digits back to what follows it.             *)
NumEnds(f, s, p, lim) == FmtEnds(f, s, p, lim)

RECURSIVE PM(_, _, _, _, _, _)
(* Matches [e |-> end, env |-> environment] of pieces ps at p, by preference. *)
PM(ps, s, p, lim, ic, env) ==
    IF ps = <<>> THEN <<[e |-> p, env |-> env]>>
    ELSE LET x == Head(ps) IN
    CASE x.k = "def" ->
            LET es == RM(x.x, s, p, lim, ic) IN
            Flat([i \in DOMAIN es |->
                    PM(Tail(ps), s, es[i], lim, ic,
                       Bind(env, x.n, [t |-> "s", v |-> Slice(s, p, es[i])]))])
      [] x.k = "use" ->
            LET w == TextOf(env[x.n])
                e == p + Len(w) IN
            IF e <= lim /\ SameS(Slice(s, p, e), w, ic)
            THEN PM(Tail(ps), s, e, lim, ic, env) ELSE <<>>
      [] x.k = "num" ->
            LET all == NumEnds(x.f, s, p, lim)
                es == IF x.c /\ all # <<>> THEN <<Head(all)>> ELSE all
                ok == SelectSeq(es, LAMBDA e :
                          x.c => /\ Comparable(x, env)
                                 /\ NumValue(x.f, Slice(s, p, e)) = Eval(x.e, env)) IN
            Flat([i \in DOMAIN ok |->
                    PM(Tail(ps), s, ok[i], lim, ic,
                       IF x.n = "" THEN env
                       ELSE Bind(env, x.n, [t |-> "n", v |-> NumValue(x.f, Slice(s, p, ok[i])),
                                            f |-> Eff(x.f)]))])
      [] x.k = "nuse" ->
            LET w == Render(ExprFormat(x.f, x.e, env), Eval(x.e, env))
                e == p + Len(w) IN
            IF Writable(x, env) /\ e <= lim /\ SameS(Slice(s, p, e), w, ic)
            THEN PM(Tail(ps), s, e, lim, ic, env) ELSE <<>>
      [] OTHER ->
            LET es == RM(x, s, p, lim, ic) IN
            Flat([i \in DOMAIN es |-> PM(Tail(ps), s, es[i], lim, ic, env)])

NoMatch == [s |-> -1, e |-> -1, env |-> <<>>]

(* A captured number past 128 bits has no value, and the match no meaning. *)
Poison(env) == \E n \in DOMAIN env : env[n].t = "n" /\ ~Fits128(env[n].v)

(* The leftmost match in [from, lim), the preferred one there. *)
RECURSIVE Find(_, _, _, _, _, _)
Find(ps, s, from, lim, ic, env) ==
    IF from > lim THEN NoMatch
    ELSE LET ms == PM(ps, s, from, lim, ic, env) IN
         IF ms # <<>> /\ Poison(Head(ms).env) THEN NoMatch
         ELSE IF ms # <<>> THEN [s |-> from, e |-> Head(ms).e, env |-> Head(ms).env]
         ELSE Find(ps, s, from + 1, lim, ic, env)
Found(m) == m.s >= 0
=============================================================================
