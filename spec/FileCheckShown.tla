--------------------------- MODULE FileCheckShown ---------------------------
(* What a failed run of FileCheck shows of the input: where it looked for the  *)
(* check that does not match, and a dump of the whole, marked with what the    *)
(* checks before it matched.                                                   *)
EXTENDS FileCheckReport

LineNo(p) == 1 + Cardinality({q \in 1..p : S[q] = NL})
LinesIn == IF S = <<>> THEN 0 ELSE LineNo(Len(S) - 1)
Inline == 10          \* more lines are shown by their ends only, unless all are asked for
Shows(kd, n, a, b, s, e) == [k |-> kd, n |-> n, a |-> a, b |-> b, s |-> s, e |-> e]
(* The stretch [a, b) of the input, all of it when asked *)
Stretch(a, b, all) ==
    LET x == IF a < Len(S) THEN a ELSE Len(S)
        y == IF b < x THEN x ELSE IF b < Len(S) THEN b ELSE Len(S) IN
    IF x = y THEN Shows("none", 0, 0, 0, 0, 0)
    ELSE LET f == LineNo(x)
             l == LineNo(y - 1)
             n == l - f + 1 IN
         IF all \/ n <= Inline THEN Shows("whole", n, f, l, x, y)
         ELSE Shows(IF y = Len(S) THEN "ends, to the last" ELSE "ends", n, f, l, x, Bol(S, y - 1))

(* Where check i, which does not match, is looked for; a CHECK-EMPTY is looked *)
(* for from the match before it on, to the end of the next line.               *)
Looked(i) ==
    CASE c.ds[i].t = "label" -> [a |-> cur, b |-> Len(S)]
      [] c.ds[i].t = "dag" -> [a |-> cur, b |-> fin]
      [] c.ds[i].t = "empty" -> [a |-> cur, b |-> Window(c.ds[i]).b]
      [] OTHER -> Window(c.ds[i])
(* A check of a group which is found where another one matched is looked for   *)
(* again behind: what is shown may be the last of these parts.                 *)
Begins(i) == IF c.ds[i].t = "dag" THEN {p \in cur..fin : TRUE} ELSE {Looked(i).a}
(* Whether it is said where check i was looked for: not when it has no meaning *)
(* or stands elsewhere, and for a repeated one, what is missing is said; nor   *)
(* need it be when what it calculates has no value where it was tried.         *)
Calculates(ps) == \E j \in DOMAIN ps : ps[j].k = "nuse" \/ (ps[j].k = "num" /\ ps[j].c)
Tells(i) ==
    /\ c.ds[i].t # "count" /\ (c.ds[i].t \in {"empty"} \/ ~Calculates(c.ds[i].ps))
    /\ c.ds[i].t \in {"empty", "label"} \/ Defined(c.ds[i].ps, env)
    /\ c.ds[i].t # "same" \/ Elsewhere(i) = {}
    /\ c.ds[i].t \in {"next", "empty"} => Window(c.ds[i]).a <= Window(c.ds[i]).b
=============================================================================
