---------------------------- MODULE SettingsVal ----------------------------
(* Recorded runs of tests that write down what they were given. Every file of a *)
(* world needs a feature, or none, and holds, as a script and as a program,     *)
(* commands that write down which of both they are, what the placeholders       *)
(* x.keys stand for, their directory and their environment.                     *)
EXTENDS Judge, Discovery

DASH == 45
SYSTEM == <<115, 121, 115, 116, 101, 109, 45>>
TARGET == <<116, 97, 114, 103, 101, 116>>
HOST == <<104, 111, 115, 116, 61>>
NATIVE == <<110, 97, 116, 105, 118, 101>>
X86_64 == <<120, 56, 54, 95, 54, 52>>
LINUX == <<108, 105, 110, 117, 120>>
DARWIN == <<100, 97, 114, 119, 105, 110>>
APPLE == <<97, 112, 112, 108, 101>>
ARM == <<97, 114, 109>>
X86 == <<120, 56, 54>>
MACHO == SYSTEM \o <<108, 105, 110, 107, 101, 114, 45, 109, 97, 99, 104, 45, 111>>
RECURSIVE Parts(_, _)
Parts(s, acc) ==       \* of a triple
    IF s = <<>> THEN <<acc>>
    ELSE IF Head(s) = DASH THEN <<acc>> \o Parts(Tail(s), <<>>) ELSE Parts(Tail(s), Append(acc, Head(s)))
Arch(t) ==
    LET a == Parts(t, <<>>)[1] IN
    IF Len(a) = 4 /\ a[1] = 105 /\ Tail(Tail(a)) = <<56, 54>> THEN X86
    ELSE IF Len(a) >= 3 /\ SubSeq(a, 1, 3) = ARM THEN ARM ELSE a
System(t) == Parts(t, <<>>)[3]
(* The features every test has, run on host for target *)
DefaultFeatures(host, target) ==
    {SYSTEM \o System(host), HOST \o host, TARGET \o <<61>> \o target, TARGET \o <<DASH>> \o Arch(target)}
    \cup (IF host = target THEN {NATIVE} ELSE {})
    \cup (IF Arch(target) = X86_64 /\ System(target) = LINUX THEN {X86_64 \o <<DASH>> \o LINUX} ELSE {})
    \cup (IF Arch(target) = X86_64 /\ System(target) = DARWIN THEN {X86_64 \o <<DASH>> \o APPLE} ELSE {})
    \cup (IF System(target) = DARWIN THEN {MACHO} ELSE {})

FileNo(x, f) == CHOOSE n \in DOMAIN x.files : x.files[n] = f
SH == <<115, 104>>
EXE == <<101, 120, 101>>
V0 == <<118, 48>>
Stands(subs, k) == IF HasK(subs, k) THEN ValueOf(subs, k) ELSE k
(* What a test comes to: its status, the words of its commands but the environment, and that *)
Outcome(x, t) ==
    LET c == SettingsOf(x, t[1], t[2])
        have == RangeOf(c.feats) \cup DefaultFeatures(x.host, x.target)
        n == FileNo(x, t[2])
        dir == x.suites[t[1]].work
        envs == Overlay(x.outer, c.env)
        env == {envs[i].k \o <<61>> \o envs[i].v : i \in DOMAIN envs}
        ran(ws) == [status |-> "PASS", words |-> ws \o <<dir>>, env |-> env]
        not == [status |-> "UNSUPPORTED", words |-> <<>>, env |-> {}] IN
    IF c.fmt.k = "exe"
    THEN IF RangeOf(c.fmt.unsup) \cap have # {} THEN not ELSE ran(<<EXE, V0>>)
    ELSE IF x.needs[n] # <<>> /\ x.needs[n] \notin have THEN not
         ELSE LET subs == Overlay(c.subs, c.fmt.extra) IN
              ran(<<SH, V0>> \o [k \in DOMAIN x.keys |-> Stands(subs, x.keys[k])])
Right(x) ==
    LET T == TestsOf(x) IN
    /\ Len(x.obs.tests) = Cardinality(T)
    /\ \A t \in T : \E i \in DOMAIN x.obs.tests :
        LET o == x.obs.tests[i] e == Outcome(x, t) IN
        /\ Same(o.name, NameOf(x, t)) /\ o.status = e.status
        /\ Same(o.words, e.words) /\ RangeOf(o.env) = e.env /\ Len(o.env) = Cardinality(e.env)
Next ==
    /\ ph = "asked" /\ ph' = "done" /\ UNCHANGED id
    /\ LET x == Case(id) IN
       IF Right(x) THEN Accept(x)
       ELSE Reject(x, {[name |-> NameOf(x, t), is |-> Outcome(x, t)] : t \in TestsOf(x)})
Spec == JudgeInit /\ [][Next]_judge
=============================================================================
