------------------------------- MODULE Ignore ------------------------------
(* What a list of ignore patterns means, said about sequences of names.  A    *)
(* path is a non-empty sequence of names, the last of them a file's.  A       *)
(* pattern names one file, or one directory and everything under it (no      *)
(* file), from the root or (deep) at any depth.                               *)
EXTENDS Naturals, Sequences, Str
LOCAL Pre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
LOCAL Suf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, Len(q) - Len(p) + 1, Len(q)) = p
LOCAL Within(p, q) == \E i \in 1..(Len(q) + 1) : Pre(p, SubSeq(q, i, Len(q)))
LOCAL Dirs(path) == SubSeq(path, 1, Len(path) - 1)

Matches(p, path) ==
  LET whole == p.dirs \o <<p.file>>
  IN CASE p.file # "" /\ ~p.deep -> path = whole
       [] p.file # "" /\ p.deep  -> Suf(whole, path)
       [] p.file = "" /\ ~p.deep -> Pre(p.dirs, Dirs(path))
       [] OTHER                  -> Within(p.dirs, Dirs(path))
Ignored(pats, path) == \E i \in DOMAIN pats : Matches(pats[i], path)

\* how they are written
PathText(path) == "/" \o JoinWith(path, "/")
PatternText(p) ==
  LET body == (IF p.dirs = <<>> THEN "" ELSE JoinWith(p.dirs, "/") \o "/") \o p.file
  IN IF ~p.deep THEN "/" \o body ELSE IF p.slash THEN "**/" \o body ELSE "**" \o body
=============================================================================
