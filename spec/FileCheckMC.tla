---------------------------- MODULE FileCheckMC ----------------------------
(* Every check file over a small table of directives applied to every input    *)
(* over a small alphabet. The invariants are the properties; the outcomes are  *)
(* printed and replayed in the real FileCheck.                                 *)
EXTENDS FileCheckProps, Json, IOUtils

(* A universe: [dirs |-> table of directives, lo, hi |-> how many in a check   *)
(* file, chars, len |-> inputs, opts |-> table of options, imp, env].          *)
ASSUME TLCSet(43, JsonDeserialize(IOEnv.UNIVERSES))
(* Compared once, so that records are in normal form before workers share them. *)
ASSUME TLCGet(43) = TLCGet(43)
U(i) == TLCGet(43)[i]

Texts(cs, n) == UNION {[1..l -> RangeOf(cs)] : l \in 0..n}
EnumIds(x) ==
    UNION {UNION {[u : {i}, d : [1..n -> DOMAIN U(i).dirs], in : Texts(U(i).chars, U(i).len),
                   o : DOMAIN U(i).opts] : n \in U(i).lo..U(i).hi} : i \in DOMAIN TLCGet(43)}
EnumCase(x) ==
    LET w == U(x.u) IN
    [in |-> x.in, ds |-> [j \in DOMAIN x.d |-> [w.dirs[x.d[j]] EXCEPT !.ln = j]],
     opt |-> w.opts[x.o], env |-> w.env, imp |-> w.imp]

Report ==
    /\ ph = "done"
    /\ PrintT("END " \o ToJson(<<k, IF Malformed THEN "error" ELSE IF ok THEN "ok" ELSE "fail",
                                 IF ok /\ ~Malformed THEN out ELSE <<>>>>))
    /\ ph' = "end"
    /\ UNCHANGED <<k, di, cur, fin, regs, bi, env, nots, grp, gm, out, ok>>
Spec == Init /\ [][Next \/ Report]_vars
=============================================================================
