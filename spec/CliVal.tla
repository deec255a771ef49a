------------------------------- MODULE CliVal -------------------------------
(* Recorded calls of the real FileCheck, by how they ended: what the words say *)
(* (Cli) makes a case of the specification of FileCheck, which says the rest.  *)
(* Of the files, f holds the checks, g an input and d is a directory; there    *)
(* are no others. The standard input holds an input, or the checks.            *)
EXTENDS FileCheck, Cli, Json, IOUtils

ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.CASES))
ASSUME TLCGet(42) = TLCGet(42)
CliIds(x) == DOMAIN TLCGet(42)

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf(ch) == 31 + CHOOSE i \in 1 .. Len(Printable) : Ch(Printable, i) = ch
Coded(w) == [i \in 1 .. Len(w) |-> CodeOf(Ch(w, i))]
RECURSIVE Figs(_)
Figs(w) == IF w = "" THEN <<>> ELSE IF Ch(w, 1) = "0" THEN Figs(From(w, 2)) ELSE [i \in 1 .. Len(w) |-> CodeOf(Ch(w, i)) - 48]
BigOf(w) == LET n == Ch(w, 1) = "-" m == Figs(IF n THEN From(w, 2) ELSE w) IN [neg |-> n /\ m # <<>>, m |-> m]
NameOf(v) == SubSeq(v, IF Ch(v, 1) = "#" THEN 2 ELSE 1, First(v, "=") - 1)
ValOf(v) == LET x == From(v, First(v, "=") + 1) IN
            IF Ch(v, 1) = "#" THEN [t |-> "n", v |-> BigOf(x), f |-> [t |-> "none", p |-> 0, pre |-> FALSE, up |-> "any"]]
            ELSE [t |-> "s", v |-> Coded(x)]
(* The last definition of a name counts. *)
RECURSIVE EnvOf(_)
EnvOf(vs) == IF vs = <<>> THEN <<>>
             ELSE LET v == vs[Len(vs)] IN (NameOf(v) :> ValOf(v)) @@ EnvOf(SubSeq(vs, 1, Len(vs) - 1))

Plainly(w) == ~Holds(w, "{") /\ ~Holds(w, "[") /\ ~Holds(w, " ")
In(w, q) == \E i \in DOMAIN q : q[i] = w
RECURSIVE Used(_, _, _)
Used(ls, st, i) ==
    IF i > Len(ls) THEN <<>>
    ELSE IF In(ls[i].px, Checks(st)) /\ ~In(ls[i].lead, Comments(st)) THEN <<i>> \o Used(ls, st, i + 1)
    ELSE Used(ls, st, i + 1)

(* What becomes of the call: refused, helped, open (not said) or run. *)
Fate(x, st, ev) ==
    LET inf == OrElse(st.vals["infile"], <<"-">>)[1] IN
    IF st.at = "usage" THEN "refused"
    ELSE IF st.at = "help" THEN "helped"
    ELSE IF st.pos[1] = "help" \/ Clashes(st) THEN "refused"
    ELSE IF OrElse(st.vals["dump"], <<"fail">>)[1] = "help" THEN "helped"
    ELSE IF st.pos[1] \notin {"f", "g", "-"} \/ inf \notin {"f", "g", "-"} THEN "refused"
    ELSE IF \/ st.pos[1] = "g" \/ inf = "f" \/ (st.pos[1] = "-" /\ x.feeds # "checks") \/ (inf = "-" /\ x.feeds = "checks")
            \/ "match-full-lines" \in st.flags \/ \E i \in DOMAIN st.vals["nots"] : ~Plainly(st.vals["nots"][i])
         THEN "open"
    ELSE IF \/ In("", st.vals["nots"]) \/ (Used(x.lines, st, 1) = <<>> /\ st.vals["nots"] = <<>>)
            \/ /\ "allow-unused-prefixes" \notin st.flags
               /\ \E i \in DOMAIN Checks(st) : \A j \in DOMAIN Used(x.lines, st, 1) : x.lines[Used(x.lines, st, 1)[j]].px # Checks(st)[i]
         THEN "refused" ELSE "run"
Resolve(x) ==
    LET cmd == Read(x.words, FALSE)
        ev == IF x.set THEN Read(x.opts, TRUE) ELSE Start(TRUE)
        st == IF x.set THEN Joined(cmd, ev) ELSE cmd
        f == IF ~Over(cmd) /\ ~Over(ev) /\ Open(cmd, ev) THEN "open" ELSE Fate(x, st, ev)
        us == IF f = "run" THEN Used(x.lines, st, 1) ELSE <<>> IN
    [id |-> x.id, obs |-> x.obs, fate |-> f,
     in |-> IF st.vals["infile"] = <<"g">> THEN x.file ELSE x.std,
     ds |-> [j \in DOMAIN us |-> x.lines[us[j]]],
     opt |-> [icase |-> "ignore-case" \in st.flags, scope |-> "enable-var-scope" \in st.flags, allowempty |-> "allow-empty" \in st.flags],
     env |-> IF f = "run" THEN EnvOf(st.vals["defs"]) ELSE <<>>,
     imp |-> IF f = "run" THEN [j \in DOMAIN st.vals["nots"] |-> <<[k |-> "lit", s |-> Coded(st.vals["nots"][j])]>>] ELSE <<>>]
ASSUME TLCSet(43, [i \in DOMAIN TLCGet(42) |-> Resolve(TLCGet(42)[i])])
ASSUME TLCGet(43) = TLCGet(43)
CliCase(i) == TLCGet(43)[i]

Verdict == IF c.fate # "run" THEN c.fate ELSE IF ~Malformed /\ ok THEN "passes" ELSE "refused"
Told ==
    /\ ph = "done" \/ (ph = "label" /\ di = 1 /\ c.fate # "run")
    /\ IF c.fate = "open" THEN PrintT("SKIP " \o ToString(c.id))
       ELSE IF c.obs.verdict = Verdict THEN PrintT("ACC " \o ToString(c.id))
       ELSE PrintT("OUT " \o ToString(c.id) \o " " \o ToJson([verdict |-> Verdict, fate |-> c.fate, opt |-> c.opt]))
    /\ ph' = "end"
    /\ UNCHANGED <<k, di, cur, fin, regs, bi, env, nots, grp, gm, out, ok>>
Spec == Init /\ [][(c.fate = "run" /\ Next) \/ Told]_vars
TypeOKEnd == ph = "end" \/ TypeOK
=============================================================================
