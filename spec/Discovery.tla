----------------------------- MODULE Discovery -----------------------------
(* Which tests a command line stands for, and with which settings. A path is    *)
(* the sequence of its names, a name a sequence of bytes. A world x has         *)
(*   files, dirs : Seq(path)                                                    *)
(*   suites : Seq([dir, src : path, name, cfg])   src: of the tests, from dir   *)
(*   locals : Seq([dir, cfg])                                                   *)
(*   cwd : path, inputs : Seq(path)   as given, relative to cwd                 *)
(* Settings cfg:                                                                *)
(*   pats, excl : Seq(glob)   env, subs : Seq([k, v])   feats : Seq(name)       *)
(*   fmt : [k, extra, unsup]   k: "none" when it is not set                     *)
EXTENDS Text

SLASH == 47
DOTN == <<46>>
DOTDOTN == <<46, 46>>
UnderP(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p      \* q is p or below it
Up(p) == SubSeq(p, 1, Len(p) - 1)

RECURSIVE Canon(_, _)
Canon(p, acc) ==
    IF p = <<>> THEN acc
    ELSE Canon(Tail(p), CASE Head(p) = DOTN -> acc
                          [] Head(p) = DOTDOTN -> IF acc = <<>> THEN acc ELSE Up(acc)
                          [] OTHER -> Append(acc, Head(p)))
RECURSIVE Joined(_)
Joined(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<SLASH>> \o Joined(Tail(p))

(* ---------------------------------- globs ---------------------------------- *)
(* ? is any character, also a slash; * any number of them; ** any number of      *)
(* directories; [..] one of those, [!..] one that is not.                        *)
SetEnd(g, i) == CHOOSE e \in i..Len(g) : g[e] = 93 /\ e > i /\ \A f \in (i + 1)..(e - 1) : g[f] # 93
RECURSIVE GlobSet(_, _, _)
GlobSet(g, i, e) ==      \* the characters of g[i .. e]
    IF i > e THEN {}
    ELSE IF i + 2 <= e /\ g[i + 1] = 45 THEN g[i]..g[i + 2] \cup GlobSet(g, i + 3, e)
    ELSE {g[i]} \cup GlobSet(g, i + 1, e)
RECURSIVE GlobWords(_, _)
GlobWords(g, i) ==
    IF i > Len(g) THEN <<>>
    ELSE IF g[i] = 63 THEN <<[k |-> "any"]>> \o GlobWords(g, i + 1)
    ELSE IF g[i] = 42 THEN
        IF i < Len(g) /\ g[i + 1] = 42
        THEN <<[k |-> "dirs"]>> \o GlobWords(g, i + 3)
        ELSE <<[k |-> "some"]>> \o GlobWords(g, i + 1)
    ELSE IF g[i] = 91 THEN
        LET neg == g[i + 1] = 33
            b == IF neg THEN i + 2 ELSE i + 1
            e == SetEnd(g, b) IN
        <<[k |-> "set", neg |-> neg, c |-> GlobSet(g, b, e - 1)]>> \o GlobWords(g, e + 1)
    ELSE <<[k |-> "is", c |-> g[i]]>> \o GlobWords(g, i + 1)
RECURSIVE GlobFits(_, _, _, _)
GlobFits(w, j, s, p) ==
    IF j > Len(w) THEN p > Len(s)
    ELSE CASE w[j].k = "some" -> \E q \in p..(Len(s) + 1) : GlobFits(w, j + 1, s, q)
           [] w[j].k = "dirs" -> \E q \in p..(Len(s) + 1) :
                  (q = p \/ q = Len(s) + 1 \/ s[q - 1] = SLASH) /\ GlobFits(w, j + 1, s, q)
           [] OTHER -> /\ p <= Len(s)
                       /\ CASE w[j].k = "any" -> TRUE
                            [] w[j].k = "is" -> s[p] = w[j].c
                            [] w[j].k = "set" -> w[j].neg # (s[p] \in w[j].c)
                       /\ GlobFits(w, j + 1, s, p + 1)
Fits(g, s) == GlobFits(GlobWords(g, 1), 1, s, 1)

(* -------------------------------- settings --------------------------------- *)
HasK(l, k) == \E i \in DOMAIN l : l[i].k = k
ValueOf(l, k) == l[CHOOSE i \in DOMAIN l : l[i].k = k].v
(* Those of l with the values of m where it has any, then the others of m *)
Overlay(l, m) ==
    LET new(e) == ~HasK(l, e.k) IN
    [i \in DOMAIN l |-> IF HasK(m, l[i].k) THEN [k |-> l[i].k, v |-> ValueOf(m, l[i].k)] ELSE [k |-> l[i].k, v |-> l[i].v]]
    \o LET r == SelectSeq(m, new) IN [i \in DOMAIN r |-> [k |-> r[i].k, v |-> r[i].v]]
(* The settings c of a directory inside of one with the settings o *)
Inherits(c, o) ==
    [pats |-> IF c.pats = <<>> THEN o.pats ELSE c.pats,
     excl |-> IF c.excl = <<>> THEN o.excl ELSE c.excl,
     env |-> Overlay(o.env, c.env), subs |-> Overlay(o.subs, c.subs),
     feats |-> o.feats \o c.feats,
     fmt |-> IF c.fmt.k = "none" THEN o.fmt ELSE c.fmt]

IsFile(x, p) == \E i \in DOMAIN x.files : x.files[i] = p
IsDir(x, p) == \E i \in DOMAIN x.dirs : x.dirs[i] = p
SuiteAt(x, d) == IF \E i \in DOMAIN x.suites : x.suites[i].dir = d THEN CHOOSE i \in DOMAIN x.suites : x.suites[i].dir = d ELSE 0
Source(x, i) == x.suites[i].dir \o x.suites[i].src
RECURSIVE Settings(_, _, _, _)
(* of the directory d, below that of which they are known to be c *)
Settings(x, c, from, d) ==
    LET own == IF \E i \in DOMAIN x.locals : x.locals[i].dir = from
               THEN Inherits(x.locals[CHOOSE i \in DOMAIN x.locals : x.locals[i].dir = from].cfg, c) ELSE c IN
    IF from = d THEN own ELSE Settings(x, own, SubSeq(d, 1, Len(from) + 1), d)
SettingsOf(x, i, f) == Settings(x, x.suites[i].cfg, Source(x, i), Up(f))

(* -------------------------------- discovery -------------------------------- *)
(* The suite of a path: of the directories from it up to cwd, the first with a   *)
(* suite whose tests it is among, or which it is itself.                         *)
RECURSIVE SuiteFrom(_, _, _)
SuiteFrom(x, p, d) ==
    LET i == SuiteAt(x, d) IN
    IF i # 0 /\ (d = p \/ UnderP(Source(x, i), IF IsDir(x, p) THEN p ELSE Up(p))) THEN i
    ELSE IF d = x.cwd \/ d = <<>> THEN 0
    ELSE SuiteFrom(x, p, Up(d))
SuiteFor(x, p) == SuiteFrom(x, p, IF IsDir(x, p) THEN p ELSE Up(p))
(* The directory of a suite stands for all of it *)
AreaOf(x, i, p) == IF UnderP(Source(x, i), p) THEN p ELSE Source(x, i)
(* Directories with a suite of their own are not searched for tests of another *)
Bound(x, i, a, d) == SuiteAt(x, d) # 0 /\ d # a /\ UnderP(a, d) /\ d # Source(x, i)
Within(x, i, a, f) ==      \* the path f is found from a
    UnderP(a, f) /\ \A n \in (Len(a) + 1)..(Len(f) - 1) : ~Bound(x, i, a, SubSeq(f, 1, n))
FilesFrom(x, i, a) == IF IsFile(x, a) THEN {a} ELSE {f \in RangeOf(x.files) : Within(x, i, a, f)}
NestedFrom(x, i, a) == {d \in RangeOf(x.dirs) : Bound(x, i, a, d) /\ Within(x, i, a, d)}

Hidden(f) == f[Len(f)][1] = 46
Relative(x, i, f) == SubSeq(f, Len(Source(x, i)) + 1, Len(f))
IsTest(x, i, f) ==
    LET c == SettingsOf(x, i, f)
        r == Joined(Relative(x, i, f)) IN
    /\ ~Hidden(f)
    /\ \E j \in DOMAIN c.pats : Fits(c.pats[j], r)
    /\ ~\E j \in DOMAIN c.excl : Fits(c.excl[j], r)

RECURSIVE Reached(_, _)
Reached(x, p) ==       \* the suites' files one input leads to
    LET i == SuiteFor(x, p) IN
    IF i = 0 THEN {}
    ELSE LET a == AreaOf(x, i, p) IN
         {<<i, f>> : f \in FilesFrom(x, i, a)} \cup UNION {Reached(x, d) : d \in NestedFrom(x, i, a)}
Given(x) == {Canon(x.cwd \o x.inputs[j], <<>>) : j \in DOMAIN x.inputs}
TestsOf(x) == {t \in UNION {Reached(x, p) : p \in Given(x)} : IsTest(x, t[1], t[2])}
NameOf(x, t) == x.suites[t[1]].name \o <<58, 58>> \o Joined(Relative(x, t[1], t[2]))

(* A path that is not there, or not below cwd, is an error *)
Refused(x) == \E p \in Given(x) : (~IsDir(x, p) /\ ~IsFile(x, p)) \/ ~UnderP(x.cwd, p)
NoSuites(x) == \A p \in Given(x) : SuiteFor(x, p) = 0
(* Suites passed by, whose tests the path is not among *)
PassedBy(x) == \E p \in Given(x) : \E d \in RangeOf(x.dirs) : SuiteAt(x, d) # 0 /\ UnderP(d, p) /\ UnderP(x.cwd, d)
=============================================================================
