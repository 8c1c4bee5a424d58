------------------------------ MODULE LicDiff ------------------------------
(* Comparing the concluded licences of two packages.  The packages gain files *)
(* one at a time.                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Str, Emit
CONSTANTS Names, Lics, MaxFiles, SIM,
          Every   \* only pairs with a multiple of this many files become tests
VARIABLES one, two

NamesOf(p) == {p[i].name : i \in DOMAIN p}
LicOf(p, n) == LET i == CHOOSE j \in DOMAIN p : p[j].name = n IN p[i].lic
All(p, q) == NamesOf(p) \cup NamesOf(q)
First(p, q, n) == IF n \in NamesOf(p) THEN LicOf(p, n) ELSE ""
Pair(p, q, n) == [first |-> First(p, q, n), second |-> First(q, p, n)]
Class(p, q, n) == IF n \notin NamesOf(q) THEN "first" ELSE IF n \notin NamesOf(p) THEN "second"
                  ELSE IF LicOf(p, n) = LicOf(q, n) THEN "same" ELSE "changed"
Entries(p, q, c) == {[name |-> n, pair |-> Pair(p, q, n)] : n \in {m \in All(p, q) : Class(p, q, m) = c}}
Classes == <<"changed", "same", "first", "second">>
Result(p, q) == [i \in DOMAIN Classes |-> Entries(p, q, Classes[i])]
Out(p, q) == (Len(p) + Len(q)) % Every = 0 => Emit([k |-> "licdiff", label |-> "diff " \o ToString([i \in DOMAIN Classes |-> Cardinality(Result(p, q)[i])]), one |-> p, two |-> q,
                   pairs |-> {[name |-> n, pair |-> Pair(p, q, n)] : n \in All(p, q)}, want |-> Result(p, q)])

Init == one = <<>> /\ two = <<>> /\ Out(<<>>, <<>>)
Free(p) == {[name |-> n, lic |-> l] : n \in Names \ NamesOf(p), l \in Lics}
Add(p, q) == \E f \in Free(p) : q = f
Next == IF SIM
        THEN \E s \in {RandomElement(1..2)} :
               LET p == IF s = 1 THEN one ELSE two IN
               /\ Len(p) < MaxFiles
               /\ \E f \in {RandomElement(Free(p))} : one' = (IF s = 1 THEN Append(one, f) ELSE one) /\ two' = (IF s = 2 THEN Append(two, f) ELSE two)
               /\ Out(one', two')
        ELSE /\ \/ Len(one) < MaxFiles /\ two = <<>> /\ (\E f \in Free(one) : one' = Append(one, f)) /\ two' = two
                \/ Len(two) < MaxFiles /\ (\E f \in Free(two) : two' = Append(two, f)) /\ one' = one
             /\ Out(one', two')
Spec == Init /\ [][Next]_<<one, two>>

\* --------------------------------------------------------------------- facts
Partition == LET r == Result(one, two) IN
  \A n \in All(one, two) : Cardinality({i \in DOMAIN r : \E e \in r[i] : e.name = n}) = 1
Swap == LET r == Result(one, two)
            s == Result(two, one)
            turn(S) == {[name |-> e.name, pair |-> [first |-> e.pair.second, second |-> e.pair.first]] : e \in S}
        IN s = <<turn(r[1]), turn(r[2]), turn(r[4]), turn(r[3])>>
Itself == LET r == Result(one, one) IN r[1] = {} /\ r[3] = {} /\ r[4] = {} /\ Cardinality(r[2]) = Len(one)
=============================================================================
