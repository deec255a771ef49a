------------------------------- MODULE Ranges -------------------------------
(* Ranges, spans and selections as the sets of offsets they stand for. Where   *)
(* the maximum M of a type is out of reach, numbers are pairs: <<0, n>> is n   *)
(* and <<1, -k>> is M - k.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Refusal == "refused"
(* ---------------------------- small type, 0..255 ---------------------------- *)
Top8 == 255
Set(a, b) == a..(b - 1)
RangeOp(op, x) ==
    LET a == x[1] b == x[2] S == Set(a, b) IN
    IF a > b THEN Refusal
    ELSE CASE op = "new" -> <<a, b>>
           [] op = "len" -> Cardinality(S)
           [] op = "empty" -> S = {}
           [] op = "contains" -> x[3] \in S
           (* The lowest and the highest offset, and the range without it. *)
           [] op = "pop_front" -> IF S = {} THEN <<<<>>, <<a, b>>>> ELSE <<<<a>>, <<a + 1, b>>>>
           [] op = "pop_back" -> IF S = {} THEN <<<<>>, <<a, b>>>> ELSE <<<<b - 1>>, <<a, b - 1>>>>
           (* Without the lowest x[3] offsets, or with the lowest x[3] only. *)
           [] op = "shrink_front" -> <<IF x[3] >= Cardinality(S) THEN b ELSE a + x[3], b>>
           [] op = "truncate" -> IF x[3] > Cardinality(S) THEN Refusal ELSE <<a, a + x[3]>>

(* ------------------------ numbers on a line with a top ------------------------ *)
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Leq(x, y) == x = y \/ Less(x, y)
Plus(x, n) == <<x[1], x[2] + n>>
Sum(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Diff(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Beyond(x) == x[1] > 1 \/ (x[1] = 1 /\ x[2] > 0)
Negative(x) == x[1] < 0 \/ (x[1] = 0 /\ x[2] < 0)
Valid(x) == ~Beyond(x) /\ ~Negative(x)
ZERO == <<0, 0>>
TOP == <<1, 0>>

(* Bounds <<"in" | "ex" | "un", number>> of what is between lo and hi. *)
StartOf(b, lo) == CASE b[1] = "in" -> b[2] [] b[1] = "ex" -> Plus(b[2], 1) [] OTHER -> lo
EndOf(b, hi) == CASE b[1] = "in" -> Plus(b[2], 1) [] b[1] = "ex" -> b[2] [] OTHER -> hi
Resolve(x, within) ==
    LET lo == x[3] hi == x[4] s == StartOf(x[1], lo) e == EndOf(x[2], hi) IN
    IF Less(e, s) \/ Beyond(e) \/ Beyond(s) \/ (within /\ (Less(s, lo) \/ Less(hi, e))) THEN Refusal
    ELSE <<s, e>>

SpanOf(x) ==
    LET s == x[1] e == x[2] IN
    IF Less(e, s) THEN Refusal ELSE <<s, e, s = e, s = e>>
Moved(x, both) ==
    LET d == x[3] - x[4]
        s == IF both THEN Plus(x[1], d) ELSE x[1]
        e == Plus(x[2], d) IN
    IF Less(x[2], x[1]) \/ ~Valid(s) \/ ~Valid(e) THEN Refusal ELSE <<s, e>>

(* A span does not end before it starts. *)
Extended(x) == IF Less(Plus(x[2], x[3] - x[4]), x[1]) THEN Refusal ELSE Moved(x, FALSE)

(* Line and column indices. *)
Opt(x) == IF Valid(x) THEN <<x>> ELSE <<>>
Cap(x) == (IF Beyond(x) THEN TOP ELSE IF Negative(x) THEN ZERO ELSE x)
OneOrMore(x) == IF Leq(x, ZERO) THEN <<0, 1>> ELSE x
IndexOps(x) ==
    LET i == x[1] d == x[2] n == Plus(i, 1) IN
    <<Opt(Sum(i, d)), Opt(Diff(i, d)), Cap(Sum(i, d)), Cap(Diff(i, d)),
      Opt(n), TRUE,
      IF Valid(n) /\ Less(ZERO, Diff(n, d)) THEN Opt(Diff(n, d)) ELSE <<>>,
      IF Valid(n) THEN <<OneOrMore(Diff(n, d))>> ELSE <<>>>>

(* A step k of an index i, and of a number, which is 1 or more: k = x[2].       *)
Above(y) == IF Valid(y) /\ y # ZERO THEN <<y>> ELSE <<>>
Step(x) ==
    LET i == x[1] k == x[2] s == Plus(i, k) up == Opt(s) n == Above(s) capped == OneOrMore(Cap(s)) IN
    <<<<up, up, up, up, up, up, up>>,
      <<up, Cap(s), up, up>>,
      IF i = ZERO THEN <<>>
      ELSE <<<<n, capped, n, n, <<n, n, n, capped>>, n, Plus(i, -1)>>>>>>

(* ------------------------------ comparisons ------------------------------ *)
Sign(x, y) == IF x = y THEN 0 ELSE IF Less(x, y) THEN -1 ELSE 1
Order(x) ==
    LET p == <<x[1], x[2]>> q == <<x[3], x[4]>> o == Sign(p, q) IN
    IF x[1] > x[2] \/ x[3] > x[4] THEN Refusal
    ELSE <<o, <<o>>, <<o < 0, o <= 0, o > 0, o >= 0, o = 0, o # 0>>,
           IF o > 0 THEN p ELSE q, IF o > 0 THEN q ELSE p>>
Digits[n \in Nat] == IF n < 10 THEN <<48 + n>> ELSE Append(Digits[n \div 10], 48 + (n - 10 * (n \div 10)))
Convert(x) ==
    LET p == <<x[1], x[2]>> IN
    IF x[1] > x[2] THEN Refusal
    ELSE <<p, p, p, <<"in", x[1]>>, <<"ex", x[2]>>, Digits[x[1]] \o <<46, 46>> \o Digits[x[2]]>>
SpanAs(x) ==
    LET p == <<x[1], x[2]>> IN <<<<x[1], x[2] - x[1]>>, p, p, p, p, p, p, p, x[2] - x[1]>>
Spanned(x) ==
    LET v == x[2] w == x[4] o == Sign(<<0, v>>, <<0, w>>) IN
    <<v = w, o, <<o>>, v = w, TRUE, <<x[3], w + 1, w + 1>>, v, TRUE>>

Letters == <<97, 98, 99, 100, 101, 102>>
Value(op, x) ==
    CASE op = "resolve" -> Resolve(x, TRUE)
      [] op = "default" -> Resolve(x, FALSE)
      [] op = "span" -> SpanOf(x)
      [] op = "span_over" -> Refusal
      [] op = "span_at" -> <<x[1], x[1], 0, TRUE, FALSE>>
      [] op = "span_slice" ->
            IF x[1] > x[2] \/ x[2] > Len(Letters) THEN Refusal ELSE SubSeq(Letters, x[1] + 1, x[2])
      [] op = "slice" ->
            IF x[1] > x[2] \/ x[2] > Len(Letters) THEN Refusal
            ELSE <<SubSeq(Letters, x[1] + 1, x[2]),
                   [i \in DOMAIN Letters |-> IF i > x[1] /\ i <= x[2] THEN Letters[x[1] + x[2] + 1 - i] ELSE Letters[i]]>>
      [] op = "order" -> Order(x)
      [] op = "convert" -> Convert(x)
      [] op = "span_as" -> SpanAs(x)
      [] op = "spanned" -> Spanned(x)
      [] op = "lines" -> IF x[1] <= x[2] THEN <<x[1], 0, x[2], 0, TRUE>> ELSE <<x[2], 0, x[1], 0, TRUE>>
      [] op = "step" -> Step(x)
      [] op = "shift" -> Moved(x, TRUE)
      [] op = "extend" -> Extended(x)
      [] op = "selection" -> IF x[1] < x[3] \/ (x[1] = x[3] /\ x[2] <= x[4]) THEN x
                             ELSE <<x[3], x[4], x[1], x[2]>>
      [] op = "index" -> IndexOps(x)
      [] OTHER -> RangeOp(op, x)
=============================================================================
