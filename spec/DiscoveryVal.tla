---------------------------- MODULE DiscoveryVal ----------------------------
(* Recorded discoveries of the real code: what is listed, or run, for a command *)
(* line. via: "tests", "suites", "run".                                         *)
EXTENDS Judge, Discovery, BoolExpr

RegexOf(t) == RAlt(t, 0, Len(t), <<>>)
Hits(f, n) == LET r == RegexOf(f[1]) IN Occurs(r.r, n)
Unread(f) == f # <<>> /\ LET r == RegexOf(f[1]) IN r.st # "ok" \/ r.p # Len(f[1])
Selected(x, n) == (x.filter = <<>> \/ Hits(x.filter, n)) /\ (x.out = <<>> \/ ~Hits(x.out, n))

FormatName(x, t) == IF SettingsOf(x, t[1], t[2]).fmt.k = "exe" THEN "executable" ELSE "shtest"
(* As often in the list l as there are tests in T which e gives it for *)
Bag(l, T, e(_)) ==
    /\ Len(l) = Cardinality(T)
    /\ \A i \in DOMAIN l : Cardinality({j \in DOMAIN l : Same(l[j], l[i])}) = Cardinality({t \in T : Same(e(t), l[i])})

(* Nothing is run, but a file without anything to run is no script *)
Ext(n) == IF Len(n) < 5 THEN <<>> ELSE SubSeq(n, Len(n) - 4, Len(n))
TOML == <<46, 116, 111, 109, 108>>
Scriptless(x, t) == FormatName(x, t) = "shtest" /\ Ext(NameOf(x, t)) = TOML
Answer(x) ==
    IF Refused(x) THEN [code |-> {1}, sel |-> {}, exc |-> {}]
    ELSE IF NoSuites(x) THEN [code |-> IF PassedBy(x) THEN {100, 0, 1} ELSE {100}, sel |-> {}, exc |-> {}]
    ELSE LET T == TestsOf(x)
             S == {t \in T : Selected(x, NameOf(x, t))} IN
         [code |-> IF x.via = "run" /\ (S = {} \/ \E t \in S : Scriptless(x, t)) THEN {1} ELSE {0}, sel |-> S, exc |-> T \ S]
Right(x, a) ==
    LET listed(t) == <<NameOf(x, t), FormatName(x, t)>>
        passed(t) == <<IF Scriptless(x, t) THEN "UNRESOLVED" ELSE "PASS", NameOf(x, t)>>
        name(t) == NameOf(x, t)
        sized == {i \in DOMAIN x.suites : \E t \in a.sel : t[1] = i}
        size(i) == <<x.suites[i].name, Cardinality({t \in a.sel : t[1] = i})>> IN
    /\ x.obs.code \in a.code
    /\ CASE x.via = "tests" -> Bag(x.obs.lines, a.sel, listed)
         [] x.via = "suites" -> Bag(x.obs.lines, sized, size)
         [] x.via = "run" -> /\ Bag(x.obs.lines, a.sel, passed)
                             /\ (a.sel # {} => Bag(x.obs.excluded, a.exc, name))
Next ==
    /\ ph = "asked" /\ ph' = "done" /\ UNCHANGED id
    /\ LET x == Case(id) IN
       IF Unread(x.filter) \/ Unread(x.out) THEN Leave(x)
       ELSE LET a == Answer(x) IN
            IF Right(x, a) THEN Accept(x)
            ELSE Reject(x, [code |-> a.code, selected |-> {NameOf(x, t) : t \in a.sel}, excluded |-> {NameOf(x, t) : t \in a.exc}])
Spec == JudgeInit /\ [][Next]_judge
=============================================================================
