---------------------------- MODULE DiscoveryMC ----------------------------
(* Discovery as it is done, input by input, in every small world: what it comes *)
(* to is what Discovery says, whatever the order and overlap of the inputs.     *)
EXTENDS Discovery
CONSTANT MaxInputs
VARIABLES x,      \* the world
          todo,   \* paths still to look at
          areas,  \* of each suite, the paths it is searched from
          found   \* of each suite, the files that were found

A == <<97>>
B == <<98>>
C == <<99>>
W == <<<<119>>>>
T == <<116>>
Dirs == <<W, W \o <<A>>, W \o <<A, B>>, W \o <<C>>, <<<<111>>>>>>
Files == [i \in 1..4 |-> Append(Dirs[i], T)]
Cfg == [pats |-> <<<<42>>>>, excl |-> <<>>, env |-> <<>>, subs |-> <<>>, feats |-> <<>>, fmt |-> [k |-> "none", extra |-> <<>>, unsup |-> <<>>]]
(* of each directory: no suite, or one whose tests are in it or below *)
Srcs == <<{<<>>, <<A>>, <<C>>, <<A, B>>}, {<<>>, <<B>>}, {<<>>}, {<<>>}>>
Choice(i) == {"none"} \cup {"at"} \X Srcs[i]
Choices == {<<a, b, c, d>> : a \in {<<"none">>} \cup ({"at"} \X Srcs[1]), b \in {<<"none">>} \cup ({"at"} \X Srcs[2]),
                             c \in {<<"none">>} \cup ({"at"} \X Srcs[3]), d \in {<<"none">>} \cup ({"at"} \X Srcs[4])}
SuitesOf(ch) ==
    LET is(i) == ch[i][1] = "at"
        idx == SelectSeq(<<1, 2, 3, 4>>, is) IN
    [j \in DOMAIN idx |-> [dir |-> Dirs[idx[j]], src |-> ch[idx[j]][2], name |-> <<48 + idx[j]>>, cfg |-> Cfg]]
Paths == {<<DOTN>>, <<A>>, <<A, B>>, <<C>>, <<T>>, <<A, T>>, <<A, B, T>>, <<C, T>>}

Init ==
    /\ \E ch \in Choices : \E n \in 0..MaxInputs : \E ins \in [1..n -> Paths] :
        x = [files |-> Files, dirs |-> Dirs, suites |-> SuitesOf(ch), locals |-> <<>>, cwd |-> W, inputs |-> ins]
    /\ todo = [j \in DOMAIN x.inputs |-> Canon(W \o x.inputs[j], <<>>)]
    /\ areas = [i \in DOMAIN x.suites |-> {}]
    /\ found = [i \in DOMAIN x.suites |-> {}]
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o AsSeq(S \ {e})
Look ==
    /\ todo # <<>>
    /\ UNCHANGED x
    /\ LET p == Head(todo) i == SuiteFor(x, p) IN
       IF i = 0 THEN todo' = Tail(todo) /\ UNCHANGED <<areas, found>>
       ELSE LET as == areas[i] \cup {AreaOf(x, i, p)} IN
            /\ areas' = [areas EXCEPT ![i] = as]
            /\ found' = [found EXCEPT ![i] = UNION {FilesFrom(x, i, a) : a \in as}]
            /\ todo' = AsSeq(UNION {NestedFrom(x, i, a) : a \in as}) \o Tail(todo)
Spec == Init /\ [][Look]_<<x, todo, areas, found>> /\ WF_<<x, todo, areas, found>>(Look)

All == UNION {Reached(x, p) : p \in Given(x)}
Exactly == todo = <<>> => UNION {{<<i, f>> : f \in found[i]} : i \in DOMAIN found} = All
(* A file belongs to the suite of its own path, unless another's directory lies  *)
(* between: what is found from a directory is found from each of its files.      *)
Sound == \A t \in All : UnderP(Source(x, t[1]), t[2]) /\ IsFile(x, t[2])
Everything == <<DOTN>> \in RangeOf(x.inputs) /\ SuiteFor(x, W) # 0 /\ x.suites[SuiteFor(x, W)].src = <<>>
              => \A f \in RangeOf(Files) : SuiteFor(x, f) # 0 =>
                    (\E i \in DOMAIN x.suites : <<i, f>> \in All) \/ \E i \in DOMAIN x.suites : x.suites[i].src # <<>>
Ends == <>(todo = <<>>)
=============================================================================
