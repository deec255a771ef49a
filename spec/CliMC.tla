------------------------------- MODULE CliMC -------------------------------
(* Every reading of up to Words words of a vocabulary.                        *)
EXTENDS Cli
CONSTANT Words
Vocabulary == {"f", "--", "-", "--allow-empty", "--allow-empty=1", "--ignore-case", "--check-prefix", "--check-prefixes=A,B",
               "--comment-prefix=A", "-D", "-DX=1", "-vD", "-v", "--define=X", "X=1", "A", "--dump-input=never", "--dump-input",
               "never", "--help", "-h", "--nope", "--input-file=g", "--color=x", "-x", ""}
Values == {"A", "X=1", "never", "", "f", "#N=5", "A,B", "1", "-", "-1", "-x"}
VARIABLES ws, st
vars == <<ws, st>>
Init == ws = <<>> /\ \E e \in BOOLEAN : st = Start(e)
Next == \E w \in Vocabulary : Len(ws) < Words /\ ~Over(st) /\ ws' = Append(ws, w) /\ st' = Step(st, w)
Spec == Init /\ [][Next]_vars

(* What is read does not depend on where the reader paused. *)
Folds == st = ReadAll(Start(st.inEnv), ws)
(* --name=value says what --name value says, unless the value looks like an option. *)
Spelled == st.at = "word" => \A n \in {"define", "check-prefix", "dump-input", "input-file"} : \A v \in Values :
               ~Dashed(v) => Step(st, "--" \o n \o "=" \o v) = Step(Step(st, "--" \o n), v)
Aliases == st.at = "word" => \A v \in Values :
               /\ Step(st, "--check-prefix=" \o v) = Step(st, "--check-prefixes=" \o v)
               /\ v # "" => Step(st, "-D" \o v) = Step(st, "--define=" \o v)
               /\ Step(st, "-D=" \o v) = Step(st, "--define=" \o v)
Holds2(q) == \E i \in DOMAIN q : q[i] = "--"
(* Options given in FILECHECK_OPTS are as good as on the command line. *)
Elsewhere == st.inEnv /\ ~Over(Close(st)) =>
               \A a \in {<<"f">>, <<"f", "--strict-whitespace">>} :
                   Joined(Read(a, FALSE), Close(st)) = [Read(ws \o a, FALSE) EXCEPT !.at = "word"] \/ Holds2(ws)
(* An empty FILECHECK_OPTS changes nothing. *)
Nothing == Joined(Close(st), Read(<<>>, TRUE)) = Close(st)
(* A reading that ends well names one file, and holds only good values. *)
Sound == LET r == Close(st) IN ~Over(r) => /\ Len(r.pos) = IF r.inEnv THEN 0 ELSE 1
                                           /\ \A i \in DOMAIN r.vals["checks"] : PrefixOK(r.vals["checks"][i])
                                           /\ \A i \in DOMAIN r.vals["defs"] : DefineOK(r.vals["defs"][i])
                                           /\ \A a \in DOMAIN r.vals \ Manifold : Len(r.vals[a]) <= 1
(* Neither more words nor FILECHECK_OPTS mend what was refused. *)
Final == Over(st) => \A w \in Vocabulary : Step(st, w) = st /\ Close(st) = st
=============================================================================
