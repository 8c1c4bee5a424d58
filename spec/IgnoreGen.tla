----------------------------- MODULE IgnoreGen -----------------------------
(* Lists of ignore patterns, each met with every path of a universe of names *)
(* that are prefixes and suffixes of one another.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Ignore, Emit
CONSTANTS Names, Depth, MaxPats, SIM
VARIABLE pats

Files == {"f", "af"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* the directory tree: every directory up to two levels, with files in each
Tree == {d \o <<x>> : d \in SeqsUpTo(Names, 2), x \in Files} \cup [1..3 -> Names]
\* the universe of direct queries: also paths that no one tree can have
Universe == Tree \cup [1..1 -> Names] \cup [1..2 -> Names]
Patterns == {[deep |-> b[1], slash |-> b[2], dirs |-> d, file |-> x] :
               b \in {<<FALSE, TRUE>>, <<TRUE, TRUE>>, <<TRUE, FALSE>>}, d \in SeqsUpTo(Names, Depth), x \in Files \cup Names \cup {""}}
            \ {[deep |-> TRUE, slash |-> FALSE, dirs |-> <<>>, file |-> x] : x \in Files \cup Names \cup {""}}  \* not a documented form

Texts(S) == {PathText(p) : p \in S}
Label(ps) == LET kind(p) == (IF p.deep THEN "deep " ELSE "rooted ") \o (IF p.file = "" THEN "dir" ELSE "file")
             IN IF ps = <<>> THEN "none" ELSE IF Len(ps) = 1 THEN kind(ps[1]) \o ToString(Len(ps[1].dirs)) ELSE "list" \o ToString(Len(ps)) \o " " \o kind(ps[Len(ps)])
Hit(ps, S) == {p \in S : Ignored(ps, p)}
Out(ps) == Emit([k |-> "ignore", label |-> Label(ps), pats |-> [i \in DOMAIN ps |-> PatternText(ps[i])],
                 paths |-> Texts(Universe), tree |-> Texts(Tree), ignored |-> Texts(Hit(ps, Universe))])

Init == pats = <<>>
Next == /\ Len(pats) < MaxPats
        /\ IF SIM THEN \E p \in {RandomElement(Patterns)} : pats' = Append(pats, p)
                  ELSE \E p \in Patterns : pats' = Append(pats, p)
        /\ Out(pats')
Spec == Init /\ [][Next]_pats

\* --------------------------------------------------------------------- facts
EveryPatternCounts == Hit(pats, Universe) = UNION {Hit(<<pats[i]>>, Universe) : i \in DOMAIN pats}
\* what is written with stars covers what is written without
DeepCovers == \A i \in DOMAIN pats : ~pats[i].deep =>
  Hit(<<pats[i]>>, Universe) \subseteq Hit(<<[pats[i] EXCEPT !.deep = TRUE]>>, Universe)
\* a name matches only as a whole: exchanging two names in the patterns and in the path changes nothing
WholeNames == \A x, y \in Names :
  LET r(n) == IF n = x THEN y ELSE IF n = y THEN x ELSE n
      rs(q) == [i \in DOMAIN q |-> r(q[i])]
      rp(p) == [p EXCEPT !.dirs = rs(@), !.file = r(@)]
  IN \A path \in Universe : Ignored(pats, path) = Ignored([i \in DOMAIN pats |-> rp(pats[i])], rs(path))
=============================================================================
