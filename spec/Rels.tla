-------------------------------- MODULE Rels --------------------------------
(* The deprecated short forms of JSON and YAML documents: the elements a      *)
(* document describes and the files a package has, listed beside explicit    *)
(* relationships.  A document grows one entry at a time; reading it gives     *)
(* the explicit relationships, and then one relationship for each listed      *)
(* pair that none of them, and none derived before, expresses.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Str, Emit
CONSTANTS Vers, MaxEntries, MaxExpl, Rich, SIM,
          Many    \* how many more elements there are
VARIABLES v, docid, expl, desc, has, pkgs

Null == "{{NULL}}"
More == {"x" \o ToString(i) : i \in 1..Many}
Refs == More \cup IF Rich THEN {"DOCUMENT", "p1", "p2", "f1", "f2", "d:f1", "d:DOCUMENT"} ELSE {"DOCUMENT", "p1", "f1", "d:f1"}
Special == {"NONE", "NOASSERTION"}
Listed == More \cup IF Rich THEN {"p1", "p2", "f1", "f2", "d:f1", "d:p1", "NONE"} ELSE {"p1", "f1", "d:f1"}
Types == {"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "CONTAINED_BY", "DEPENDS_ON"}
         \cup (IF Rich THEN {"OTHER", "describes", "CONTAINS "} ELSE {})
Rel(a, t, b) == [a |-> a, t |-> t, b |-> b]
NullRel == Rel("", "", "")   \* a null entry in the list

\* the same relationship said from the other end
Inverse == [DESCRIBED_BY |-> "DESCRIBES", CONTAINED_BY |-> "CONTAINS"]
Canon(r) == IF r.t \in DOMAIN Inverse THEN Rel(r.b, Inverse[r.t], r.a) ELSE r

ListedPairs == [i \in DOMAIN desc |-> Rel(docid, "DESCRIBES", desc[i])]
               \o (IF pkgs >= 1 THEN [i \in DOMAIN has[1] |-> Rel("p1", "CONTAINS", has[1][i])] ELSE <<>>)
               \o (IF pkgs >= 2 THEN [i \in DOMAIN has[2] |-> Rel("p2", "CONTAINS", has[2][i])] ELSE <<>>)
Kept == SelectSeq(expl, LAMBDA r : r # NullRel)
DerivedFrom(P, known) ==
  LET at == SelectSeq([i \in DOMAIN P |-> i], LAMBDA i : P[i] \notin known /\ \A j \in 1..(i - 1) : P[j] # P[i])
  IN [k \in DOMAIN at |-> P[at[k]]]
Known == LET K == Kept IN {Canon(K[i]) : i \in DOMAIN K}
Derived == DerivedFrom(ListedPairs, Known)

\* ------------------------------------------------------------------ the text
RefText(r) == IF r \in Special THEN r
              ELSE IF StartsWith(r, "d:") THEN "DocumentRef-d:SPDXRef-" \o SubSeq(r, 3, Len(r)) ELSE "SPDXRef-" \o r
RefVal(r) == IF r \in Special THEN [SpecialID |-> r]
             ELSE IF StartsWith(r, "d:") THEN [DocumentRefID |-> "d", ElementRefID |-> SubSeq(r, 3, Len(r))] ELSE [ElementRefID |-> r]
RelText(i) == IF expl[i] = NullRel THEN Null
              ELSE [spdxElementId |-> RefText(expl[i].a), relationshipType |-> expl[i].t, relatedSpdxElement |-> RefText(expl[i].b)]
                   @@ (IF i % 2 = 0 THEN "comment" :> ("c" \o ToString(i)) ELSE [x \in {} |-> 0])
RelVal(r) == [RefA |-> RefVal(r.a), RefB |-> RefVal(r.b), Relationship |-> r.t]
Numbered == SelectSeq([i \in DOMAIN expl |-> <<i, expl[i]>>], LAMBDA e : e[2] # NullRel)
ExplVals(nr) == [j \in DOMAIN nr |-> RelVal(nr[j][2]) @@ (IF nr[j][1] % 2 = 0 THEN "RelationshipComment" :> ("c" \o ToString(nr[j][1])) ELSE [x \in {} |-> 0])]
Opt(k, q) == IF q = <<>> THEN [x \in {} |-> 0] ELSE k :> q
PkgText(i) == [SPDXID |-> "SPDXRef-p" \o ToString(i), name |-> "p" \o ToString(i)]
              @@ Opt("hasFiles", [j \in DOMAIN has[i] |-> RefText(has[i][j])])
Tree == [spdxVersion |-> IF v = 22 THEN "SPDX-2.2" ELSE "SPDX-2.3", SPDXID |-> "SPDXRef-" \o docid, name |-> "n"]
        @@ Opt("packages", IF pkgs = 3 THEN <<PkgText(1), Null, PkgText(2)>> ELSE [i \in 1..pkgs |-> PkgText(i)])
        @@ Opt("relationships", [i \in DOMAIN expl |-> RelText(i)])
        @@ Opt("documentDescribes", [i \in DOMAIN desc |-> RefText(desc[i])])
WantOf(nr, d) == [kept |-> ExplVals(nr), derived |-> [i \in DOMAIN d |-> RelVal(d[i])]]

\* ---------------------------------------------------------------- transitions
AddExpl(r) == Len(expl) < MaxExpl /\ has = <<<<>>, <<>>>> /\ desc = <<>> /\ expl' = Append(expl, r) /\ UNCHANGED <<v, docid, desc, has, pkgs>>
AddDesc(x) == has = <<<<>>, <<>>>> /\ desc' = Append(desc, x) /\ UNCHANGED <<v, docid, expl, has, pkgs>>
AddHas(i, x) == /\ (i = 1 => has[2] = <<>>)
                /\ has' = [has EXCEPT ![i] = Append(@, x)] /\ UNCHANGED <<v, docid, expl, desc, pkgs>>
Size == Len(expl) + Len(desc) + Len(has[1]) + Len(has[2])
AllRels == {Rel(a, t, b) : a \in Refs, t \in Types, b \in Refs \cup (IF Rich THEN Special ELSE {})}
Full == \/ \E r \in AllRels \cup {NullRel} : AddExpl(r)
        \/ \E x \in Listed : AddDesc(x)
        \/ \E i \in 1..(IF pkgs = 3 THEN 2 ELSE pkgs) : \E x \in Listed : AddHas(i, x)
\* random walks add in any order
Walk == \E roll \in {RandomElement(1..10)} :
        \E x \in {RandomElement(Listed)} : \E r \in {Rel(RandomElement(Refs), RandomElement(Types), RandomElement(Refs \cup Special))} :
        \E i \in {IF pkgs = 0 THEN 0 ELSE IF pkgs = 3 THEN RandomElement(1..2) ELSE RandomElement(1..pkgs)} :
          IF roll <= 4 THEN expl' = Append(expl, r) /\ UNCHANGED <<v, docid, desc, has, pkgs>>
          ELSE IF roll = 5 THEN expl' = Append(expl, NullRel) /\ UNCHANGED <<v, docid, desc, has, pkgs>>
          ELSE IF roll <= 7 \/ i = 0 THEN desc' = Append(desc, x) /\ UNCHANGED <<v, docid, expl, has, pkgs>>
          ELSE has' = [has EXCEPT ![i] = Append(@, x)] /\ UNCHANGED <<v, docid, expl, desc, pkgs>>
\* (the bound values keep TLC from evaluating the same thing over and over)
EmitRels(last) == last => \E P \in {ListedPairs'} : \E K \in {Known'} : \E nr \in {Numbered'} : \E d \in {DerivedFrom(P, K)} :
                    Emit([k |-> "rels", v |-> v', label |-> ToString(Len(d)) \o " derived, " \o ToString(Len(nr)) \o " kept",
                          tree |-> Tree', want |-> WantOf(nr, d)])
Init == /\ v \in Vers /\ docid \in (IF Rich THEN {"DOCUMENT", "p9"} ELSE {"DOCUMENT"})
        /\ pkgs \in (IF Rich THEN {0, 1, 2, 3} ELSE {2})
        /\ expl = <<>> /\ desc = <<>> /\ has = <<<<>>, <<>>>>
Next == /\ Size < MaxEntries
        /\ IF SIM THEN Walk ELSE Full
        /\ EmitRels(~SIM \/ Size + 1 = MaxEntries)
Spec == Init /\ [][Next]_<<v, docid, expl, desc, has, pkgs>>

\* --------------------------------------------------------------------- facts
All == Kept \o Derived
Expresses(r, p) == Canon(r) = p
ExactlyOnce == \A i \in DOMAIN ListedPairs :
  LET p == ListedPairs[i]
      d == {j \in DOMAIN Derived : Derived[j] = p}
      e == {j \in DOMAIN Kept : Expresses(Kept[j], p)}
  IN IF e = {} THEN Cardinality(d) = 1 ELSE d = {}
NothingInvented == \A j \in DOMAIN Derived : \E i \in DOMAIN ListedPairs : ListedPairs[i] = Derived[j]
=============================================================================
