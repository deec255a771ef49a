-------------------------------- MODULE Not --------------------------------
(* The negating command: a state machine. Its words are read, the command they *)
(* name is run, and how that ends decides how it ends itself. A word is a       *)
(* sequence of bytes.                                                          *)
EXTENDS Integers, Sequences

VARIABLES words,   \* yet to be read
          pc,      \* "read", "start", "wait", "done"
          crash,   \* whether a crash is asked for
          cmd,     \* the command, with its arguments
          started, \* the commands started
          code     \* what it ends with: a number, or Usage: any but 0
negation == <<words, pc, crash, cmd, started, code>>

CRASH == <<45, 45, 99, 114, 97, 115, 104>>
DASHES == <<45, 45>>
HELP == <<104, 101, 108, 112>>
Usage == -1
NotFound == 127
NotRunnable == 126

NotInit(ws) == words = ws /\ pc = "read" /\ crash = FALSE /\ cmd = <<>> /\ started = <<>> /\ code = 0

EndsWith(c) == pc' = "done" /\ code' = c /\ UNCHANGED <<words, crash, cmd, started>>
Command(ws) == cmd' = ws /\ words' = <<>> /\ pc' = "start" /\ UNCHANGED <<crash, started, code>>
ReadWord ==
    /\ pc = "read"
    /\ IF words = <<>> THEN EndsWith(Usage)
       ELSE IF Head(words) = CRASH
            THEN IF crash THEN EndsWith(Usage)
                 ELSE crash' = TRUE /\ words' = Tail(words) /\ UNCHANGED <<pc, cmd, started, code>>
       ELSE IF Head(words) = DASHES
            THEN IF Len(words) = 1 THEN EndsWith(Usage) ELSE Command(Tail(words))
       ELSE Command(words)
(* A command of that name cannot be run, it asks for help instead *)
AsksForHelp == pc = "start" /\ cmd[1] = HELP /\ EndsWith(Usage)
(* The command cannot be started *)
Fails(c) == pc = "start" /\ cmd[1] # HELP /\ c \in {NotFound, NotRunnable} /\ EndsWith(c)
Starts ==
    /\ pc = "start" /\ cmd[1] # HELP
    /\ pc' = "wait" /\ started' = Append(started, cmd)
    /\ UNCHANGED <<words, crash, cmd, code>>
(* It ends with a number, or is ended by a signal *)
Exits(n) == pc = "wait" /\ EndsWith(IF n # 0 /\ ~crash THEN 0 ELSE 1)
Killed(s) == pc = "wait" /\ EndsWith(IF crash THEN 0 ELSE 1)
=============================================================================
