------------------------------ MODULE LitCall ------------------------------
(* The words lit is called with, read one by one, and what they ask for.      *)
EXTENDS Words

Commands == {"run", "show-tests", "show-suites"}
LitFlags == {"quiet", "verbose", "show-all", "no-execute"}
LitValued == {"workers", "param", "path", "timeout", "filter", "filter-out", "target"}
Many == {"param", "path"}
FlagOf == ("q" :> "quiet") @@ ("v" :> "verbose") @@ ("a" :> "show-all")
ValuedOf == ("j" :> "workers") @@ ("D" :> "param")
(* What listing commands understand *)
Heeds(cmd, n) == cmd \in {"", "run"} \/ n \in {"filter", "filter-out"}

(* ---- values ---- *)
Host == "x86_64-unknown-linux-gnu"
(* What a target is said to be *)
Says == ("x86_64-unknown-linux-gnu" :> {"target-x86_64", "x86_64-linux"}) @@ ("x86_64-apple-darwin" :> {"target-x86_64", "x86_64-apple", "system-linker-mach-o"})
        @@ ("aarch64-apple-darwin" :> {"target-aarch64", "system-linker-mach-o"}) @@ ("aarch64-unknown-linux-gnu" :> {"target-aarch64"})
        @@ ("i686-unknown-linux-gnu" :> {"target-x86"}) @@ ("armv7-unknown-linux-gnueabihf" :> {"target-arm"})
        @@ ("wasm32-unknown-unknown" :> {"target-wasm32"}) @@ ("x86_64-unknown-linux-musl" :> {"target-x86_64", "x86_64-linux"})
Features(t) == {"system-linux", "host=" \o Host, "target=" \o t} \cup Says[t] \cup (IF t = Host THEN {"native"} ELSE {})
Number(v) == v # "" /\ \A i \in 1 .. Len(v) : Of(Ch(v, i), Figures)
(* Of regular expressions, those made of letters, single characters and the ends of the text. *)
RegexOK(v) == \A i \in 1 .. Len(v) : Letter(Ch(v, i)) \/ Of(Ch(v, i), ".:^$/")
Broken(v) == Holds(v, "(") \/ Holds(v, "*")       \* those we use are not well formed
LitValueOK(a, v, dirs) ==
    CASE a \in {"workers", "timeout"} -> Number(v)
      [] a = "param" -> DefineOK(v)
      [] a = "path" -> v \in dirs
      [] a = "target" -> v \in DOMAIN Says
      [] OTHER -> ~Broken(v)

(* Does the expression match somewhere in the text? *)
RECURSIVE MatchesAt(_, _, _)
MatchesAt(r, t, i) ==       \* at i
    IF r = "" THEN TRUE
    ELSE CASE Ch(r, 1) = "^" -> i = 1 /\ MatchesAt(From(r, 2), t, i)
           [] Ch(r, 1) = "$" -> i = Len(t) + 1 /\ MatchesAt(From(r, 2), t, i)
           [] OTHER -> i <= Len(t) /\ Ch(r, 1) \in {".", Ch(t, i)} /\ MatchesAt(From(r, 2), t, i + 1)
Matches(r, t) == \E i \in 1 .. (Len(t) + 1) : MatchesAt(r, t, i)

(* ---- reading ---- *)
(* at: "word", "value" (of the option for), "rest" (behind --), "topic" (behind  *)
(* help), or how it ended: "usage", "help" or "open" (not said).                 *)
LitStart == [at |-> "word", for |-> "", cmd |-> "", pos |-> <<>>, flags |-> {}, vals |-> [a \in LitValued |-> <<>>]]
LitOver(st) == st.at \in {"usage", "help", "open"}
EndAs(st, e) == [LitStart EXCEPT !.at = e]
Untouched(st) == st = LitStart
Takes(st, a, v, dirs) ==
    IF ~LitValueOK(a, v, dirs) \/ (a \notin Many /\ st.vals[a] # <<>>) THEN EndAs(st, "usage")
    ELSE [st EXCEPT !.at = "word", !.for = "", !.vals[a] = Append(@, v)]
Sets(st, f) == IF f \in st.flags \/ ~Heeds(st.cmd, f) THEN EndAs(st, "usage") ELSE [st EXCEPT !.flags = @ \cup {f}]
LongWord(st, w, dirs) ==
    LET eq == Holds(w, "=")
        n == IF eq THEN SubSeq(w, 1, First(w, "=") - 1) ELSE w IN
    CASE n \in LitValued /\ Heeds(st.cmd, n) ->
            IF eq THEN Takes(st, n, From(w, First(w, "=") + 1), dirs) ELSE [st EXCEPT !.at = "value", !.for = n]
      [] eq -> EndAs(st, "usage")
      [] n \in LitFlags -> Sets(st, n)
      [] n = "help" -> EndAs(st, "help")
      [] OTHER -> EndAs(st, "usage")
RECURSIVE ShortWord(_, _, _)
ShortWord(st, w, dirs) ==
    IF w = "" \/ LitOver(st) THEN st
    ELSE LET l == Ch(w, 1) IN
         CASE l = "h" -> EndAs(st, "help")
           [] l \in DOMAIN FlagOf -> ShortWord(Sets(st, FlagOf[l]), From(w, 2), dirs)
           [] l \in DOMAIN ValuedOf /\ Heeds(st.cmd, ValuedOf[l]) ->
                IF w = l THEN [st EXCEPT !.at = "value", !.for = ValuedOf[l]]
                ELSE Takes(st, ValuedOf[l], From(w, IF Ch(w, 2) = "=" THEN 3 ELSE 2), dirs)
           [] OTHER -> EndAs(st, "usage")
LitStep(st, w, dirs) ==
    CASE LitOver(st) -> st
      [] st.at = "rest" -> [st EXCEPT !.pos = Append(@, w)]
      [] st.at = "topic" -> IF w \in Commands THEN [st EXCEPT !.at = "topics"] ELSE EndAs(st, IF w = "help" THEN "open" ELSE "usage")
      [] st.at = "topics" -> EndAs(st, "usage")
      [] st.at = "value" -> IF Dashed(w) THEN EndAs(st, "usage") ELSE Takes(st, st.for, w, dirs)
      [] w = "--" -> [st EXCEPT !.at = "rest"]
      [] st.cmd = "" /\ w \in Commands \cup {"help"} ->
            IF ~Untouched(st) THEN EndAs(st, "open")
            ELSE IF w = "help" THEN [st EXCEPT !.at = "topic"] ELSE [st EXCEPT !.cmd = w]
      [] Len(w) > 2 /\ SubSeq(w, 1, 2) = "--" -> LongWord(st, From(w, 3), dirs)
      [] Dashed(w) -> ShortWord(st, From(w, 2), dirs)
      [] OTHER -> [st EXCEPT !.pos = Append(@, w)]
LitClose(st) ==
    CASE LitOver(st) -> st
      [] st.at \in {"topic", "topics"} -> EndAs(st, "help")
      [] st.at = "value" \/ st.pos = <<>> -> EndAs(st, "usage")
      [] OTHER -> [st EXCEPT !.at = "word"]
RECURSIVE LitReadAll(_, _, _)
LitReadAll(st, ws, dirs) == IF ws = <<>> THEN st ELSE LitReadAll(LitStep(st, Head(ws), dirs), Tail(ws), dirs)
LitRead(ws, dirs) == LitClose(LitReadAll(LitStart, ws, dirs))

(* ---- what is asked for ---- *)
(* Given on the command line, or else by the environment ("" is not set) *)
FilterOf(st, a, env) == IF st.vals[a] # <<>> THEN st.vals[a] ELSE IF env = "" THEN <<>> ELSE <<env>>
Chosen(name, in, out) == (in = <<>> \/ Matches(in[1], name)) /\ (out = <<>> \/ ~Matches(out[1], name))
TargetOf(st) == IF st.vals["target"] = <<>> THEN Host ELSE st.vals["target"][1]
LimitOf(st) == IF st.vals["timeout"] = <<>> THEN "0" ELSE st.vals["timeout"][1]
Failing == {"FAIL", "TIMEOUT", "UNRESOLVED", "XPASS"}
(* Quietness leaves out what did not fail; what both together show is not said. *)
ShowsUnclear(st) == {"quiet", "show-all"} \subseteq st.flags
Prints(st, s) == s \in Failing \/ "quiet" \notin st.flags
ShowsOutput(st, s) == "show-all" \in st.flags \/ ("verbose" \in st.flags /\ s \in Failing)
=============================================================================
