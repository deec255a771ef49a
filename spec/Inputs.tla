------------------------------- MODULE Inputs -------------------------------
(* What an input stands for: the files below a directory that a question is    *)
(* about, each once, and the text of a file. A tree has dirs and files; a      *)
(* file is <<path, bytes>>, a path the sequence of its names below the root.   *)
EXTENDS Discovery

FilesOf(x) == {x.files[i][1] : i \in DOMAIN x.files}
Inside(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
AFile(x, p) == p \in FilesOf(x)
ADir(x, p) == p = <<>> \/ (\E i \in DOMAIN x.dirs : x.dirs[i] = p \/ Inside(p, x.dirs[i])) \/ \E f \in FilesOf(x) : Inside(p, f)
Rel(d, p) == SubSeq(p, Len(d) + 1, Len(p))
(* The extension of a name: what is behind its last dot, unless that is its first character. *)
DotAt(n) == {i \in 2 .. Len(n) : n[i] = 46}
ExtOf(n) == IF DotAt(n) = {} THEN <<>> ELSE <<SubSeq(n, (CHOOSE i \in DotAt(n) : \A j \in DotAt(n) : j <= i) + 1, Len(n))>>
EndsIn(n, e) == Len(e) <= Len(n) /\ SubSeq(n, Len(n) - Len(e) + 1, Len(n)) = e
Last(p) == p[Len(p)]

(* Those asked for below d; if d is a file, that one, if it is asked for *)
Below(x, d, Q(_)) == {p \in FilesOf(x) : (Inside(d, p) \/ p = d) /\ Q(p)}
Globbed(x, d, g) == {p \in FilesOf(x) : Inside(d, p) /\ Fits(g, Joined(Rel(d, p)))}
Typed(x, d, ts) == Below(x, d, LAMBDA p : \E i \in DOMAIN ts : ExtOf(Last(p)) = <<ts[i]>>)
Searched(x, d, deep, e) == Below(x, d, LAMBDA p : (deep \/ Len(p) <= Len(d) + 1) /\ EndsIn(Last(p), e))

(* Texts: as they are, or with every line ending in a line feed but the last. *)
Bytes(x, p) == x.files[CHOOSE i \in DOMAIN x.files : x.files[i][1] = p][2]
RECURSIVE Unreturned(_)
Unreturned(s) == IF s = <<>> THEN <<>>
                 ELSE IF Len(s) > 1 /\ s[1] = 13 /\ s[2] = 10 THEN <<10>> \o Unreturned(SubSeq(s, 3, Len(s)))
                 ELSE <<s[1]>> \o Unreturned(Tail(s))
Unended(s) == IF s # <<>> /\ s[Len(s)] = 10 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
IsText(s) == \A i \in DOMAIN s : s[i] # 255
TextOf(s, strict) == IF strict THEN s ELSE Unended(Unreturned(s))
=============================================================================
