------------------------------ MODULE LitConfig ------------------------------
(* Which configurations of tests can be used: what may stand in the file of a  *)
(* suite (lit.suite.toml) and in that of a directory (lit.local.toml), and     *)
(* which files a run depends on.                                               *)
(* A file: [dir, kind |-> "suite" or "local", broken, es |-> << [k, v], .. >>]. Broken ones *)
(* are no TOML at all. A value: [t |-> "str", s, at] where at says what is there if it is   *)
(* a path, [t |-> "list", a], [t |-> "map", m |-> << [k, v], .. >>], [t |-> "bool"], ..      *)
EXTENDS BoolExpr

Str(v) == v.t = "str"
Bool(v) == v.t = "bool"
Twice(m) == \E i, j \in DOMAIN m : i # j /\ m[i].k = m[j].k
RECURSIVE Sound(_)       \* no key is given twice
Sound(v) ==
    CASE v.t = "map" -> ~Twice(v.m) /\ \A i \in DOMAIN v.m : Sound(v.m[i].v)
      [] v.t = "list" -> \A i \in DOMAIN v.a : Sound(v.a[i])
      [] OTHER -> TRUE

(* A glob: ** is a whole component, [ has a ] behind at least one character *)
RECURSIVE Stars(_, _)
Stars(g, i) == IF i <= Len(g) /\ g[i] = 42 THEN 1 + Stars(g, i + 1) ELSE 0
RECURSIVE GlobFrom(_, _)
GlobFrom(g, i) ==
    IF i > Len(g) THEN TRUE
    ELSE IF g[i] = 42 THEN
        LET n == Stars(g, i) IN
        CASE n = 1 -> GlobFrom(g, i + 1)
          [] n = 2 -> (i = 1 \/ g[i - 1] = 47) /\ (i + 2 > Len(g) \/ g[i + 2] = 47) /\ GlobFrom(g, i + 2)
          [] OTHER -> FALSE
    ELSE IF g[i] = 91 THEN
        LET b == IF i < Len(g) /\ g[i + 1] = 33 THEN i + 3 ELSE i + 2
            es == {e \in b..Len(g) : g[e] = 93} IN
        es # {} /\ GlobFrom(g, (CHOOSE e \in es : \A f \in es : e <= f) + 1)
    ELSE GlobFrom(g, i + 1)
Glob(v) == Str(v) /\ GlobFrom(v.s, 1)
Expr(v) == Str(v) /\ ReadExpr(v.s).st = "ok"
Texts(v) == v.t = "list" /\ \A i \in DOMAIN v.a : Str(v.a[i])
Globs(v) == v.t = "list" /\ \A i \in DOMAIN v.a : Glob(v.a[i])
Exprs(v) == v.t = "list" /\ \A i \in DOMAIN v.a : Expr(v.a[i])
Pairs(v) == v.t = "map" /\ \A i \in DOMAIN v.m : Str(v.m[i].v)

(* A script is run by a shell, an executable on its own *)
Script(v) == v.t = "map" /\ \A i \in DOMAIN v.m :
    CASE v.m[i].k = "shell" -> Str(v.m[i].v)
      [] v.m[i].k = "pipefail" -> Bool(v.m[i].v)
      [] v.m[i].k = "extra_substitutions" -> Pairs(v.m[i].v)
      [] OTHER -> TRUE
Program(v) == v.t = "map" /\ \A i \in DOMAIN v.m : v.m[i].k = "unsupported" => Exprs(v.m[i].v)
Format(v) ==
    CASE v.t = "str" -> v.at = "Default"
      [] v.t = "map" -> /\ Len(v.m) = 1
                        /\ CASE v.m[1].k \in {"shtest", "sh"} -> Script(v.m[1].v)
                             [] v.m[1].k \in {"executable", "exe"} -> Program(v.m[1].v)
                             [] OTHER -> FALSE
      [] OTHER -> FALSE
(* What is said of other things is left alone *)
Entry(kind, e) ==
    CASE e.k \in {"patterns", "exclude"} -> Globs(e.v)
      [] e.k = "available_features" -> Texts(e.v)
      [] e.k \in {"env", "substitutions"} -> Pairs(e.v)
      [] e.k = "format" -> Format(e.v)
      [] e.k = "name" -> kind = "suite" => Str(e.v) /\ e.v.s # <<>>
      [] e.k \in {"source_dir", "working_dir"} -> kind = "suite" => Str(e.v) /\ e.v.at \in {"dir", "own"}
      [] OTHER -> TRUE
Usable(f) ==
    /\ ~f.broken
    /\ ~Twice(f.es)
    /\ \A i \in DOMAIN f.es : Sound(f.es[i].v) /\ Entry(f.kind, f.es[i])
    /\ f.kind = "suite" => \E i \in DOMAIN f.es : f.es[i].k = "name"

(* ------------------- the files that a run depends on ------------------- *)
Below(p, d) == Len(d) <= Len(p) /\ SubSeq(p, 1, Len(d)) = d
SuiteAt(fs, d) == \E i \in DOMAIN fs : fs[i].kind = "suite" /\ fs[i].dir = d
(* The suite of directory p: the nearest one, upwards *)
OwnerDir(fs, p) == SubSeq(p, 1, CHOOSE n \in 0..Len(p) :
    SuiteAt(fs, SubSeq(p, 1, n)) /\ \A m \in (n + 1)..Len(p) : ~SuiteAt(fs, SubSeq(p, 1, m)))
(* File f matters to what is looked for in the directory p (all if below it)  *)
Matters(fs, f, p, all) ==
    LET own == OwnerDir(fs, f.dir) IN
    \/ own = OwnerDir(fs, p) /\ (f.kind = "suite" \/ Below(p, f.dir))
    \/ all /\ Below(f.dir, p)
    \/ all /\ Below(own, p) /\ f.kind = "suite"
=============================================================================
