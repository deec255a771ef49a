------------------------------ MODULE Numeric ------------------------------
(* Numbers in check patterns: the formats they are written in, the values     *)
(* they denote, and expressions over them. Values are BigInt integers.        *)
EXTENDS Text, BigInt

(* A format: [t |-> "u" | "d" | "x", p |-> least digits, pre |-> 0x written,  *)
(* up |-> letters in upper case, "any" | "up"] or NoFmt, when none is asked.  *)
NoFmt == [t |-> "none", p |-> 0, pre |-> FALSE, up |-> "any"]
Unsigned == [t |-> "u", p |-> 0, pre |-> FALSE, up |-> "any"]
Eff(f) == IF f.t = "none" THEN Unsigned ELSE f

HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87
             ELSE IF c \in 65..70 THEN c - 55 ELSE -1
FmtDigit(f, c) == IF f.t = "x" THEN HexVal(c) >= 0 /\ (f.up = "up" => c \notin 97..102)
                  ELSE Digit(c)

RECURSIVE DigitRun(_, _, _, _)
DigitRun(f, s, p, lim) == IF p < lim /\ FmtDigit(f, At(s, p)) THEN DigitRun(f, s, p + 1, lim) ELSE p

(* Ends of the numbers in format f at p: as many digits as there are, first. *)
FmtEnds(f0, s, p, lim) ==
    LET f == Eff(f0)
        q == IF f.t = "d" /\ p < lim /\ At(s, p) \in {43, 45} THEN p + 1
             ELSE IF f.t = "x" /\ f.pre
                  THEN (IF p + 2 <= lim /\ At(s, p) = 48 /\ At(s, p + 1) = 120 THEN p + 2 ELSE -1)
             ELSE p
        usual == IF f.t = "x" THEN 32 ELSE 39
        most == IF f.p > usual THEN f.p ELSE usual
        least == IF f.p > 1 THEN f.p ELSE 1
    IN IF q < 0 THEN <<>>
       ELSE LET r == DigitRun(f, s, q, lim)
                top == IF r - q > most THEN most ELSE r - q IN
            IF top < least THEN <<>> ELSE [i \in 1..(top - least + 1) |-> q + top + 1 - i]

DecVal(w) == Strip([i \in DOMAIN w |-> w[i] - 48])
(* The value the text w denotes in format f. *)
NumValue(f0, w) ==
    LET f == Eff(f0) IN
    IF f.t = "x"
    THEN LET d == IF f.pre THEN SubSeq(w, 3, Len(w)) ELSE w IN
         Mk(FALSE, OfHex([i \in DOMAIN d |-> HexVal(d[i])]))
    ELSE IF w[1] \in {43, 45} THEN Mk(w[1] = 45, DecVal(Tail(w)))
    ELSE Mk(FALSE, DecVal(w))

Zeros(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 48]
Pad(ds, p) == LET d == IF ds = <<>> THEN <<48>> ELSE ds IN Zeros(p - Len(d)) \o d
HexCh(f, d) == IF d < 10 THEN 48 + d ELSE IF f.up = "up" THEN 55 + d ELSE 87 + d

(* The text of value v in format f; only %d can write a negative one. *)
CanRender(f0, v) == Eff(f0).t = "d" \/ ~v.neg
Render(f0, v) ==
    LET f == Eff(f0) IN
    IF f.t = "x"
    THEN LET h == HexD(v.m) IN
         (IF f.pre THEN <<48, 120>> ELSE <<>>) \o Pad([i \in DOMAIN h |-> HexCh(f, h[i])], f.p)
    ELSE (IF v.neg THEN <<45>> ELSE <<>>) \o Pad([i \in DOMAIN v.m |-> v.m[i] + 48], f.p)

(* The text a variable stands for where it is used as text. *)
TextOf(b) == IF b.t = "s" THEN b.v ELSE Render(b.f, b.v)

(* Expressions: [k |-> "n", v] | [k |-> "v", n] | [k |-> "op", o, l, r]. *)
RECURSIVE ExprVars(_)
ExprVars(e) == CASE e.k = "n" -> {} [] e.k = "v" -> {e.n}
                 [] e.k = "op" -> ExprVars(e.l) \cup ExprVars(e.r)

(* Two formats combined: "conflict" if they cannot be. *)
Conflict == [t |-> "conflict", p |-> 0, pre |-> FALSE, up |-> "any"]
Merge(a, b) ==
    IF a.t = "conflict" \/ b.t = "conflict" THEN Conflict
    ELSE IF a.t = "none" THEN b
    ELSE IF b.t = "none" THEN a
    ELSE IF a.t # b.t \/ a.pre # b.pre \/ (a.p # b.p /\ a.p # 0 /\ b.p # 0) THEN Conflict
    ELSE [t |-> a.t, p |-> IF a.p > b.p THEN a.p ELSE b.p, pre |-> a.pre,
          up |-> IF a.up = "any" THEN b.up ELSE a.up]

RECURSIVE ImplicitFmt(_, _)
ImplicitFmt(e, env) ==
    CASE e.k = "n" -> NoFmt
      [] e.k = "v" -> env[e.n].f
      [] e.k = "op" -> Merge(ImplicitFmt(e.l, env), ImplicitFmt(e.r, env))
ExprFormat(f, e, env) == IF f.t # "none" THEN f ELSE ImplicitFmt(e, env)

RECURSIVE EvalOk(_, _), Eval(_, _)
Apply(o, x, y) ==
    CASE o = "add" -> Add(x, y) [] o = "sub" -> Sub(x, y) [] o = "mul" -> Mul(x, y)
      [] o = "div" -> Div(x, y)
      [] o = "min" -> IF Lt(y, x) THEN y ELSE x
      [] o = "max" -> IF Lt(x, y) THEN y ELSE x
Eval(e, env) ==
    CASE e.k = "n" -> e.v
      [] e.k = "v" -> env[e.n].v
      [] e.k = "op" -> Apply(e.o, Eval(e.l, env), Eval(e.r, env))
(* No division by zero, no text where a number is needed, nothing past 128 bits. *)
EvalOk(e, env) ==
    CASE e.k = "n" -> Fits128(e.v)
      [] e.k = "v" -> e.n \in DOMAIN env /\ env[e.n].t = "n"
      [] e.k = "op" -> /\ EvalOk(e.l, env) /\ EvalOk(e.r, env)
                       /\ ~(e.o = "div" /\ Eval(e.r, env).m = <<>>)
                       /\ Fits128(Apply(e.o, Eval(e.l, env), Eval(e.r, env)))
=============================================================================
