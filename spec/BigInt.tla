------------------------------- MODULE BigInt -------------------------------
(* Integers without bound: TLC's own stop at 32 bits. A magnitude is its       *)
(* decimal digits, most significant first, with no leading zero (0 is <<>>).   *)
EXTENDS Integers, Sequences

(* F(x), with x evaluated once: TLC evaluates a LET or an argument anew at    *)
(* every use where it cannot cache it.                                         *)
With(x, F(_)) == CHOOSE y \in {F(z) : z \in {x}} : TRUE

RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d

Dig(d, i) == IF i < Len(d) THEN d[Len(d) - i] ELSE 0     \* i-th digit from the right

RECURSIVE AddD(_, _, _, _, _)
AddD(a, b, i, c, acc) ==
    IF i >= Len(a) /\ i >= Len(b) THEN (IF c = 0 THEN acc ELSE <<c>> \o acc)
    ELSE With(Dig(a, i) + Dig(b, i) + c,
              LAMBDA t : With(<<t % 10>> \o acc, LAMBDA z : AddD(a, b, i + 1, t \div 10, z)))
MagAdd(a, b) == With(a, LAMBDA x : With(b, LAMBDA y : Strip(AddD(x, y, 0, 0, <<>>))))

RECURSIVE SubD(_, _, _, _, _)
SubD(a, b, i, c, acc) ==                                 \* a >= b
    IF i >= Len(a) THEN acc
    ELSE With(Dig(a, i) - Dig(b, i) - c,
              LAMBDA t : With(<<IF t < 0 THEN t + 10 ELSE t>> \o acc,
                              LAMBDA z : SubD(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, z)))
MagSub(a, b) == With(a, LAMBDA x : With(b, LAMBDA y : Strip(SubD(x, y, 0, 0, <<>>))))

RECURSIVE LexLt(_, _)
LexLt(a, b) == IF a = <<>> THEN FALSE
               ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
               ELSE LexLt(Tail(a), Tail(b))
MagLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLt(a, b)

RECURSIVE MulS(_, _, _, _, _)
MulS(a, k, i, c, acc) ==                                 \* a * k for 0 <= k < 100
    IF i >= Len(a) THEN (IF c = 0 THEN acc
                         ELSE IF c < 10 THEN <<c>> \o acc
                         ELSE <<c \div 10, c % 10>> \o acc)
    ELSE With(Dig(a, i) * k + c,
              LAMBDA t : With(<<t % 10>> \o acc, LAMBDA z : MulS(a, k, i + 1, t \div 10, z)))
MagMulS(a, k) == With(a, LAMBDA x : Strip(MulS(x, k, 0, 0, <<>>)))

RECURSIVE MagMul(_, _)
MagMul(a, b) ==                                          \* digit by digit of b
    IF b = <<>> THEN <<>>
    ELSE With(MagMul(a, SubSeq(b, 1, Len(b) - 1)),
              LAMBDA r : MagAdd(IF r = <<>> THEN <<>> ELSE Append(r, 0), MagMulS(a, b[Len(b)])))

(* Long division: quotient of a by b # 0. *)
RECURSIVE DigQ(_, _)
DigQ(r, b) == IF MagLt(r, b) THEN 0 ELSE 1 + With(MagSub(r, b), LAMBDA z : DigQ(z, b))
RECURSIVE DivD(_, _, _, _)
DivD(a, b, r, q) ==
    IF a = <<>> THEN <<q, r>>
    ELSE With(Strip(Append(r, Head(a))), LAMBDA r1 :
         With(DigQ(r1, b), LAMBDA d :
         With(MagSub(r1, MagMulS(b, d)), LAMBDA rest :
         With(Append(q, d), LAMBDA q1 : DivD(Tail(a), b, rest, q1)))))
DivMod(a, b) == With(a, LAMBDA x : With(b, LAMBDA y : DivD(x, y, <<>>, <<>>)))
MagDiv(a, b) == Strip(DivMod(a, b)[1])

RECURSIVE MagInt(_)
MagInt(d) == IF d = <<>> THEN 0 ELSE MagInt(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE Append(OfNat(n \div 10), n % 10)

Mk(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
Zero == Mk(FALSE, <<>>)
Int_(n) == IF n < 0 THEN Mk(TRUE, OfNat(-n)) ELSE Mk(FALSE, OfNat(n))
Neg(x) == Mk(~x.neg, x.m)
Add(x, y) ==
    IF x.neg = y.neg THEN Mk(x.neg, MagAdd(x.m, y.m))
    ELSE IF MagLt(x.m, y.m) THEN Mk(y.neg, MagSub(y.m, x.m))
    ELSE Mk(x.neg, MagSub(x.m, y.m))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mk(x.neg # y.neg, MagMul(x.m, y.m))
Div(x, y) == Mk(x.neg # y.neg, MagDiv(x.m, y.m))         \* towards zero
Lt(x, y) == IF x.neg # y.neg THEN x.neg
            ELSE IF x.neg THEN MagLt(y.m, x.m) ELSE MagLt(x.m, y.m)

(* 2^127: signed 128-bit integers are -2^127 .. 2^127 - 1. *)
Two127 == <<1,7,0,1,4,1,1,8,3,4,6,0,4,6,9,2,3,1,7,3,1,6,8,7,3,0,3,7,1,5,8,8,4,1,0,5,7,2,8>>
Fits128(x) == IF x.neg THEN ~MagLt(Two127, x.m) ELSE MagLt(x.m, Two127)

(* Digits of m in base 16, most significant first. *)
RECURSIVE HexD(_)
HexD(m) == IF m = <<>> THEN <<>>
           ELSE With(DivMod(m, <<1, 6>>), LAMBDA qr : Append(With(Strip(qr[1]), HexD), MagInt(qr[2])))
RECURSIVE OfHexD(_, _)
OfHexD(h, acc) == IF h = <<>> THEN acc
                  ELSE With(MagAdd(MagMulS(acc, 16), OfNat(Head(h))), LAMBDA z : OfHexD(Tail(h), z))
OfHex(h) == With(h, LAMBDA x : OfHexD(x, <<>>))
=============================================================================
