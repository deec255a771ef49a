------------------------------ MODULE LitCallMC ------------------------------
(* Every reading of up to Words words of a vocabulary.                        *)
EXTENDS LitCall
CONSTANT Words
LitVocabulary == {"run", "show-tests", "show-suites", "help", "s", "d1", "--", "-", "-q", "--quiet", "-v", "-qv", "-a", "--show-all", "--no-execute",
                  "-j", "-j2", "-j=2", "--workers=x", "2", "-D", "X=1", "--path", "--path=d1", "--filter", "--filter=a", "--filter-out", "--filter=(",
                  "--target", "i686-unknown-linux-gnu", "--timeout=1", "--help", "-h", "--nope", "-x", ""}
LitDirs == {"d1", "d2"}
VARIABLES ws, st
vars == <<ws, st>>
Init == ws = <<>> /\ st = LitStart
Next == \E w \in LitVocabulary : Len(ws) < Words /\ ~LitOver(st) /\ ws' = Append(ws, w) /\ st' = LitStep(st, w, LitDirs)
Spec == Init /\ [][Next]_vars

Folds == st = LitReadAll(LitStart, ws, LitDirs)
Texts == {"2", "a", "d1", "X=1", "", "-", "-1", "i686-unknown-linux-gnu", "("}
Ready == st.at = "word"
(* --name=value says what --name value says, unless the value looks like an option. *)
Spelled == Ready => \A n \in LitValued : \A v \in Texts : ~Dashed(v) =>
             LitStep(st, "--" \o n \o "=" \o v, LitDirs) = LitStep(LitStep(st, "--" \o n, LitDirs), v, LitDirs)
Short == Ready => /\ \A l \in DOMAIN FlagOf : LitStep(st, "-" \o l, LitDirs) = LitStep(st, "--" \o FlagOf[l], LitDirs)
                  /\ \A l \in DOMAIN ValuedOf : \A v \in Texts \ {""} :
                        LitStep(st, "-" \o l \o v, LitDirs) = LitStep(st, "--" \o ValuedOf[l] \o "=" \o v, LitDirs)
                  /\ \A a, b \in DOMAIN FlagOf : LitStep(st, "-" \o a \o b, LitDirs) = LitReadAll(st, <<"-" \o a, "-" \o b>>, LitDirs)
(* Options may be given in any order, and before or behind the paths. *)
Given == {<<"-q">>, <<"--filter", "a">>, <<"--filter-out=b">>, <<"-j2">>, <<"--timeout", "1">>, <<"--target=i686-unknown-linux-gnu">>, <<"s">>, <<"--nope">>, <<"--no-execute">>}
Orderless == Ready => \A g, h \in Given :
    g # h => LitClose(LitReadAll(st, g \o h, LitDirs)) = LitClose(LitReadAll(st, h \o g, LitDirs))
(* Running is what is done when nothing else is said. *)
Default == LET bare == LitRead(ws, LitDirs) told == LitRead(<<"run">> \o ws, LitDirs) IN
           bare.cmd = "" /\ bare.at = "word" /\ (\A i \in DOMAIN ws : ws[i] \notin Commands \cup {"help"}) => told = [bare EXCEPT !.cmd = "run"]
(* A reading that ends well has paths, and good values only. *)
Sound == LET r == LitClose(st) IN ~LitOver(r) =>
           /\ r.pos # <<>>
           /\ \A a \in LitValued : \A i \in DOMAIN r.vals[a] : LitValueOK(a, r.vals[a][i], LitDirs)
           /\ \A a \in LitValued \ Many : Len(r.vals[a]) <= 1
           /\ r.cmd \in {"show-tests", "show-suites"} => r.flags = {} /\ \A a \in LitValued \ {"filter", "filter-out"} : r.vals[a] = <<>>
Final == LitOver(st) => LitClose(st) = st
=============================================================================
