------------------------------- MODULE NotMC -------------------------------
(* Every run of every short list of words, whatever the command does.          *)
EXTENDS Not
VARIABLES given, ended   \* the words, and how the command ended
vars == <<words, pc, crash, cmd, started, code, given, ended>>
CONSTANT MaxWords
Word == {CRASH, DASHES, HELP, <<>>, <<45>>, <<114>>}
Init ==
    \E n \in 0 .. MaxWords : \E ws \in [1 .. n -> Word] :
        NotInit(ws) /\ given = ws /\ ended = <<"no">>
Next ==
    /\ UNCHANGED given
    /\ \/ (ReadWord \/ AsksForHelp) /\ UNCHANGED ended
       \/ (Fails(NotFound) \/ Fails(NotRunnable)) /\ ended' = <<"unstarted">>
       \/ Starts /\ UNCHANGED ended
       \/ \E n \in {0, 1, 127, 255} : Exits(n) /\ ended' = <<"exit", n>>
       \/ \E s \in {6, 11} : Killed(s) /\ ended' = <<"signal", s>>
Spec == Init /\ [][Next]_vars

(* The options are the words before the command *)
Asked == \E i \in DOMAIN given : given[i] = CRASH /\ \A j \in 1 .. i - 1 : given[j] = CRASH
Succeeds ==
    pc = "done" =>
        (code = 0 <=> \/ ended[1] = "exit" /\ ended[2] # 0 /\ ~Asked
                      \/ ended[1] = "signal" /\ Asked)
OnceAtMost == Len(started) <= 1 /\ (ended[1] \in {"exit", "signal"} <=> pc = "done" /\ Len(started) = 1)
(* The command is a suffix of the words, with nothing before it but options *)
Verbatim ==
    started # <<>> =>
        \E i \in 0 .. Len(given) - 1 :
            /\ started[1] = SubSeq(given, i + 1, Len(given))
            /\ \A j \in 1 .. i : given[j] = CRASH \/ (given[j] = DASHES /\ j = i)
Ends == pc # "done" => ENABLED Next
=============================================================================
