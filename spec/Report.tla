------------------------------- MODULE Report ------------------------------
(* The licence report of a package.  Files are counted one at a time; what    *)
(* the report says is the state of the count.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Str, Emit
CONSTANTS Lics, MaxFiles, SIM,
          Every   \* only packages with a multiple of this many files become tests
VARIABLES files,     \* the concluded licence of each file
          count,     \* licence -> number
          found, missing

vars == <<files, count, found, missing>>
Missing == {"", "NOASSERTION"}
Num(n) == ToString(n)
\* what a report may look like: the licences of the same count in any order, but always the same
Want(c, f, m) == [found |-> f, missing |-> m, total |-> f + m, counts |-> {[lic |-> l, n |-> c[l]] : l \in DOMAIN c}]
Out(fs, c, f, m) == Len(fs) % Every = 0 => \A a \in (IF Len(fs) <= 1 THEN BOOLEAN ELSE {TRUE}) :
  Emit([k |-> "report", label |-> (IF a THEN "report " ELSE "refused ") \o Num(Len(fs)) \o " files " \o Num(Cardinality(DOMAIN c)) \o " licences"
          \o (IF \E x, y \in DOMAIN c : x # y /\ c[x] = c[y] THEN " tied" ELSE ""),
        files |-> fs, analyzed |-> a, want |-> IF a THEN Ok(Want(c, f, m)) ELSE Err])
Init == files = <<>> /\ count = <<>> /\ found = 0 /\ missing = 0 /\ Out(<<>>, <<>>, 0, 0)
Count(l) ==
  /\ files' = Append(files, l)
  /\ IF l \in Missing THEN missing' = missing + 1 /\ UNCHANGED <<count, found>>
     ELSE /\ found' = found + 1 /\ UNCHANGED missing
          /\ count' = [x \in DOMAIN count \cup {l} |-> IF x = l THEN (IF x \in DOMAIN count THEN count[x] ELSE 0) + 1 ELSE count[x]]
Next == /\ Len(files) < MaxFiles
        /\ IF SIM THEN \E l \in {RandomElement(Lics)} : Count(l) ELSE \E l \in Lics : Count(l)
        /\ Out(files', count', found', missing')
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------------- facts
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN count[x] + Sum(S \ {x})
Total == found + missing = Len(files) /\ Sum(DOMAIN count) = found
Each == \A l \in DOMAIN count : count[l] = Cardinality({i \in DOMAIN files : files[i] = l}) /\ count[l] > 0
=============================================================================
