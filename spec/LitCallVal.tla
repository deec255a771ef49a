----------------------------- MODULE LitCallVal -----------------------------
(* Recorded calls of the real lit, by how they ended, what ran and what they   *)
(* printed. Of the world of a call, x.paths says which of its tests stand      *)
(* below a path and which suites are looked at for it; other paths do not      *)
(* exist, or are not below the directory lit is called in.                     *)
EXTENDS Judge, LitCall

SetOf(q) == {q[i] : i \in DOMAIN q}
(* The tool comes from the first directory that has it. *)
RECURSIVE ToolFrom(_, _)
ToolFrom(ds, has) == IF ds = <<>> THEN "none" ELSE IF Head(ds) \in DOMAIN has THEN has[Head(ds)] ELSE ToolFrom(Tail(ds), has)
(* The directories given come before those of the suite's own environment, which *)
(* take the place of the ones lit was called with.                               *)
ToolOf(x, st, s) == ToolFrom(st.vals["path"] \o (IF s \in DOMAIN x.walks THEN x.walks[s] ELSE x.env.path), x.tools)
Status(x, st, t) ==
    LET tool == ToolOf(x, st, t.suite) IN
    IF ~Chosen(t.name, FilterOf(st, "filter", x.env.in), FilterOf(st, "filter-out", x.env.out)) THEN "EXCLUDED"
    ELSE IF ~(SetOf(t.needs) \subseteq (Features(TargetOf(st)) \cup SetOf(x.features[t.suite]))) THEN "UNSUPPORTED"
    ELSE IF "no-execute" \in st.flags THEN "PASS"
    ELSE IF t.does = "slow" /\ LimitOf(st) = "4" THEN "TIMEOUT"
    ELSE IF t.does = "fails" \/ (t.does = "tool" /\ tool # "good") THEN "FAIL" ELSE "PASS"
Ran(st, s) == s \in {"PASS", "FAIL", "TIMEOUT"} /\ "no-execute" \notin st.flags

Nothing == [verdict |-> "refused", ran |-> {}, tests |-> {}, printed |-> {}, output |-> {}, suites |-> {}]
Expect(x) ==
    LET st == LitRead(x.words, SetOf(x.dirs))
        fin == FilterOf(st, "filter", x.env.in)
        fout == FilterOf(st, "filter-out", x.env.out)
        good == \A i \in DOMAIN st.pos : st.pos[i] \in DOMAIN x.paths
        ids == UNION {SetOf(x.paths[st.pos[i]].tests) : i \in DOMAIN st.pos}
        suites == UNION {SetOf(x.paths[st.pos[i]].suites) : i \in DOMAIN st.pos}
        names == {x.tests[k].name : k \in ids}
        stat == [k \in ids |-> Status(x, st, x.tests[k])] IN
    CASE st.at \in {"open", "usage"} -> Nothing
      [] st.at = "help" -> [Nothing EXCEPT !.verdict = "helped"]
      [] ~good \/ suites = {} -> Nothing
      [] (fin # <<>> /\ Broken(fin[1])) \/ (fout # <<>> /\ Broken(fout[1])) -> Nothing
      [] st.cmd = "show-suites" ->
            [Nothing EXCEPT !.verdict = "told",
                            !.suites = {[name |-> s, count |-> Cardinality({k \in ids : x.tests[k].suite = s}),
                                         features |-> Features(Host) \cup SetOf(x.features[s])] : s \in suites}]
      [] st.cmd = "show-tests" -> [Nothing EXCEPT !.verdict = "told", !.tests = {<<n, "">> : n \in {m \in names : Chosen(m, fin, fout)}}]
      [] \A k \in ids : stat[k] = "EXCLUDED" -> Nothing
      [] OTHER ->
            [Nothing EXCEPT !.verdict = IF \E k \in ids : stat[k] \in Failing THEN "failed" ELSE "passed",
                            !.ran = {<<x.tests[k].name, IF x.tests[k].does = "tool" THEN ToolOf(x, st, x.tests[k].suite) ELSE "">>
                                     : k \in {j \in ids : Ran(st, stat[j])}},
                            !.tests = {<<x.tests[k].name, stat[k]>> : k \in {j \in ids : Prints(st, stat[j]) /\ stat[j] # "EXCLUDED"}},
                            !.printed = {stat[k] : k \in {j \in ids : Prints(st, stat[j])}},
                            !.output = {x.tests[k].name : k \in {j \in ids : Ran(st, stat[j]) /\ Prints(st, stat[j]) /\ ShowsOutput(st, stat[j])}}]
Told(o) == [verdict |-> o.verdict, ran |-> SetOf(o.ran), tests |-> SetOf(o.tests), printed |-> SetOf(o.printed), output |-> SetOf(o.output),
            suites |-> {[name |-> o.suites[i].name, count |-> o.suites[i].count, features |-> SetOf(o.suites[i].features)] : i \in DOMAIN o.suites}]
(* Parts left open count as given. *)
Leaves(x) ==
    LET st == LitRead(x.words, SetOf(x.dirs)) IN
    \/ st.at = "open"
    \/ st.cmd = "show-suites" /\ (st.vals["filter"] # <<>> \/ st.vals["filter-out"] # <<>> \/ x.env.in # "" \/ x.env.out # "")
    \/ Holds(x.env.in, "(") /\ st.vals["filter"] # <<>>
    \/ Holds(x.env.out, "(") /\ st.vals["filter-out"] # <<>>
Fits(x, e, o) ==
    IF ShowsUnclear(LitRead(x.words, SetOf(x.dirs)))
    THEN e.verdict = o.verdict /\ e.ran = o.ran /\ {t \in o.tests : t[2] \in Failing} = {t \in e.tests : t[2] \in Failing}
    ELSE e = o
LitCallDecide ==
    /\ ph = "asked" /\ ph' = "told" /\ UNCHANGED id
    /\ LET x == Case(id) IN
       IF Leaves(x) THEN Leave(x)
       ELSE LET e == Expect(x) IN
            IF Fits(x, e, Told(x.obs)) THEN Accept(x) ELSE Reject(x, [specified |-> e, read |-> LitRead(x.words, SetOf(x.dirs))])
Spec == JudgeInit /\ [][LitCallDecide]_judge
=============================================================================
