-------------------------------- MODULE Cli --------------------------------
(* The words FileCheck is called with, read one by one, and those of          *)
(* FILECHECK_OPTS, which add to them.                                         *)
EXTENDS Words

FlagNames == {"allow-empty", "allow-unused-prefixes", "strict-whitespace", "match-full-lines", "ignore-case",
              "enable-var-scope"}
(* Options with a value: what they are called, and what they are about. *)
About == [n \in {"check-prefixes", "check-prefix"} |-> "checks"] @@ [n \in {"comment-prefixes", "comment-prefix"} |-> "comments"]
         @@ ("define" :> "defs") @@ ("implicit-check-not" :> "nots") @@ ("input-file" :> "infile")
         @@ ("dump-input" :> "dump") @@ ("dump-input-filter" :> "filter") @@ ("color" :> "color")
Manifold == {"checks", "comments", "defs", "nots"}        \* may be given more than once
OneOf == ("dump" :> {"help", "always", "fail", "never"})
         @@ ("filter" :> {"all", "annotation-full", "annotation", "error"}) @@ ("color" :> {"auto", "always", "never"})

(* ---- values ---- *)
PrefixOK(p) == /\ p # "" /\ Letter(Ch(p, 1))
               /\ \A i \in 1 .. Len(p) : Letter(Ch(p, i)) \/ Of(Ch(p, i), Figures \o "-_")
ValueOK(a, v) ==
    CASE a \in {"checks", "comments"} -> \A i \in DOMAIN Split(v, ",") : PrefixOK(Split(v, ",")[i])
      [] a = "defs" -> DefineOK(v)
      [] a \in DOMAIN OneOf -> v \in OneOf[a]
      [] OTHER -> TRUE
ValuesOf(a, v) == IF a \in {"checks", "comments"} THEN Split(v, ",") ELSE <<v>>

(* ---- reading ---- *)
(* at: "word", "value" (of the option for), "rest" (behind --) or how it ended: *)
(* "usage" (refused) or "help". pos: what stands for itself. flags, vals: what  *)
(* was given. inEnv: FILECHECK_OPTS.                                            *)
Start(e) == [at |-> "word", for |-> "", pos |-> <<>>, flags |-> {}, vals |-> [a \in {About[n] : n \in DOMAIN About} |-> <<>>], inEnv |-> e]
Over(st) == st.at \in {"usage", "help"}
Usage(st) == [Start(st.inEnv) EXCEPT !.at = "usage"]
Helps(st) == [Start(st.inEnv) EXCEPT !.at = "help"]

TakeFlag(st, f) == IF f \in st.flags THEN Usage(st) ELSE [st EXCEPT !.flags = @ \cup {f}]
TakeValue(st, a, v) ==
    IF ~ValueOK(a, v) \/ (a \notin Manifold /\ st.vals[a] # <<>>) THEN Usage(st)
    ELSE [st EXCEPT !.at = "word", !.for = "", !.vals[a] = @ \o ValuesOf(a, v)]
Await(st, a) == [st EXCEPT !.at = "value", !.for = a]
Known(st, n) == n \in DOMAIN About /\ ~(st.inEnv /\ About[n] = "infile")
Place(st, w) == IF st.inEnv \/ Len(st.pos) > 0 THEN Usage(st) ELSE [st EXCEPT !.pos = Append(@, w)]

(* --name or --name=value, without the dashes *)
Long(st, w) ==
    LET eq == Holds(w, "=")
        n == IF eq THEN SubSeq(w, 1, First(w, "=") - 1) ELSE w IN
    CASE Known(st, n) -> IF eq THEN TakeValue(st, About[n], From(w, First(w, "=") + 1)) ELSE Await(st, About[n])
      [] eq -> Usage(st)
      [] n \in FlagNames -> TakeFlag(st, n)
      [] n = "verbose" -> st
      [] n = "help" /\ ~st.inEnv -> Helps(st)
      [] OTHER -> Usage(st)
(* Letters behind one dash: -v as often as one likes, -D and its value *)
RECURSIVE Letters(_, _)
Letters(st, w) ==
    IF w = "" \/ Over(st) THEN st
    ELSE CASE Ch(w, 1) = "v" -> Letters(st, From(w, 2))
           [] Ch(w, 1) = "h" /\ ~st.inEnv -> Helps(st)
           [] Ch(w, 1) = "D" ->
                IF w = "D" THEN Await(st, "defs")
                ELSE TakeValue(st, "defs", From(w, IF Ch(w, 2) = "=" THEN 3 ELSE 2))
           [] OTHER -> Usage(st)

Step(st, w) ==
    CASE Over(st) -> st
      [] st.at = "rest" -> Place(st, w)
      [] st.at = "value" -> IF Dashed(w) THEN Usage(st) ELSE TakeValue(st, st.for, w)
      [] w = "--" -> [st EXCEPT !.at = "rest"]
      [] Len(w) > 2 /\ SubSeq(w, 1, 2) = "--" -> Long(st, From(w, 3))
      [] Dashed(w) -> Letters(st, From(w, 2))
      [] OTHER -> Place(st, w)
RECURSIVE ReadAll(_, _)
ReadAll(st, ws) == IF ws = <<>> THEN st ELSE ReadAll(Step(st, Head(ws)), Tail(ws))
(* No more words *)
Close(st) == IF st.at = "value" \/ (st.at \in {"word", "rest"} /\ ~st.inEnv /\ st.pos = <<>>) THEN Usage(st)
             ELSE IF Over(st) THEN st ELSE [st EXCEPT !.at = "word"]
Read(ws, e) == Close(ReadAll(Start(e), ws))

(* FILECHECK_OPTS adds its flags and replaces the values it gives. What it     *)
(* does to an option that collects values is left open if both give some.      *)
Open(st, ev) == \E a \in Manifold : st.vals[a] # <<>> /\ ev.vals[a] # <<>>
Joined(st, ev) ==
    IF Over(st) THEN st
    ELSE IF Over(ev) THEN Usage(st)
    ELSE [st EXCEPT !.flags = @ \cup ev.flags,
                    !.vals = [a \in DOMAIN @ |-> IF ev.vals[a] # <<>> THEN ev.vals[a] ELSE @[a]]]
OrElse(q, x) == IF q = <<>> THEN x ELSE q
Checks(st) == OrElse(st.vals["checks"], <<"CHECK">>)
Comments(st) == OrElse(st.vals["comments"], <<"COM", "RUN">>)
(* A word cannot be a prefix of checks and of comments at once. *)
Clashes(st) == \E i \in DOMAIN Checks(st) : \E j \in DOMAIN Comments(st) : Checks(st)[i] = Comments(st)[j]
=============================================================================
