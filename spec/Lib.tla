-------------------------------- MODULE Lib --------------------------------
(* Which packages a document describes, and whether its relationships lead    *)
(* only to its own elements.  The document gains relationships one at a time. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Str, Emit
CONSTANTS MaxRels, PkgLists, SIM,
          Every   \* only documents with a multiple of this many relationships become tests
VARIABLES pkgs, files, rels

Here(id) == [ElementRefID |-> id]
There(id) == [DocumentRefID |-> "other", ElementRefID |-> id]
Special(s) == [SpecialID |-> s]
Doc == Here("DOCUMENT")
Ends == {Doc, Here("p1"), Here("p2"), Here("p10"), Here("f1"), Here("g1"), There("p1"), There("DOCUMENT"), Special("NONE"), Special("NOASSERTION")}
Types == {"DESCRIBES", "DESCRIBED_BY", "CONTAINS"}
Rels == {[a |-> x, t |-> t, b |-> y] : x \in Ends, t \in Types, y \in Ends}
PackageLists == <<<<>>, <<"p1">>, <<"p2", "p10", "p1">>, <<"p1", "p2">>, <<"p10", "p1", "q">>, [i \in 1..150 |-> "p" \o ToString(((i * 7) % 150) + 1)] >>
FileLists == <<<<>>, <<"f1">>, <<"f1", "g2">> >>
Set(q) == {q[i] : i \in DOMAIN q}

Described(ps, rs) ==
  {p \in Set(ps) : \E i \in DOMAIN rs : \/ rs[i].t = "DESCRIBES" /\ rs[i].a = Doc /\ rs[i].b = Here(p)
                                        \/ rs[i].t = "DESCRIBED_BY" /\ rs[i].b = Doc /\ rs[i].a = Here(p)}
DescribedIds(ps, rs) == IF ps = <<>> THEN Err
                        ELSE IF Len(ps) = 1 THEN Ok(ps)
                        ELSE LET d == Described(ps, rs) IN IF d = {} THEN Err ELSE Ok(SetToSorted(d))
Own(ps, fs) == {Doc} \cup {Here(p) : p \in Set(ps)} \cup {Here(f) : f \in Set(fs)}
Valid(ps, fs, rs) == \A i \in DOMAIN rs : rs[i].a \in Own(ps, fs) /\ rs[i].b \in Own(ps, fs)
\* selections: the element at the far side of the relationships of a type
Selected(rs, t) == LET m == SelectSeq(rs, LAMBDA r : r.t = t) IN [i \in DOMAIN m |-> IF "ElementRefID" \in DOMAIN m[i].b THEN m[i].b.ElementRefID ELSE ""]
Label(ps, fs, rs) == "packages" \o ToString(Len(ps)) \o (IF Valid(ps, fs, rs) THEN " valid" ELSE " invalid") \o " described" \o ToString(Cardinality(Described(ps, rs)))
Out(ps, fs, rs) == Len(rs) % Every = 0 => Emit([k |-> "lib", label |-> Label(ps, fs, rs), pkgs |-> ps, files |-> fs, rels |-> rs, ids |-> DescribedIds(ps, rs), valid |-> Valid(ps, fs, rs),
                         selected |-> {[t |-> t, ids |-> Selected(rs, t)] : t \in Types}])

Init == /\ \E i \in PkgLists : pkgs = PackageLists[i]
        /\ \E i \in DOMAIN FileLists : files = FileLists[i]
        /\ rels = <<>> /\ Out(pkgs, files, <<>>)
\* in simulation mostly the ends that matter
Likely == {[a |-> x, t |-> t, b |-> y] : x \in {Doc, Here("p1"), Here("p2"), Here("p10")}, t \in Types, y \in {Doc, Here("p1"), Here("p2"), Here("p10")}}
LongLikely == LET p == Here(pkgs[RandomElement(DOMAIN pkgs)]) IN RandomElement({[a |-> Doc, t |-> "DESCRIBES", b |-> p], [a |-> p, t |-> "DESCRIBED_BY", b |-> Doc], [a |-> Doc, t |-> "CONTAINS", b |-> p]})
Next == /\ Len(rels) < MaxRels
        /\ IF SIM THEN \E z \in {RandomElement(1..10)} : \E r \in {IF z < 10 THEN IF Len(pkgs) < 100 THEN RandomElement(Likely) ELSE LongLikely ELSE RandomElement(Rels)} : rels' = Append(rels, r)
                  ELSE \E r \in Rels : rels' = Append(rels, r)
        /\ UNCHANGED <<pkgs, files>>
        /\ Out(pkgs, files, rels')
Spec == Init /\ [][Next]_<<pkgs, files, rels>>

\* --------------------------------------------------------------------- facts
OnlyPackages == Len(pkgs) > 1 => LET d == DescribedIds(pkgs, rels) IN IsErr(d) \/ (Set(d.ok) \subseteq Set(pkgs) /\ Cardinality(Set(d.ok)) = Len(d.ok))
Ascending == LET d == DescribedIds(pkgs, rels) IN IsErr(d) \/ \A i \in 2..Len(d.ok) : StrLess(d.ok[i - 1], d.ok[i])
BothWays == LET turn(r) == IF r.t = "DESCRIBES" THEN [a |-> r.b, t |-> "DESCRIBED_BY", b |-> r.a] ELSE IF r.t = "DESCRIBED_BY" THEN [a |-> r.b, t |-> "DESCRIBES", b |-> r.a] ELSE r
            IN DescribedIds(pkgs, rels) = DescribedIds(pkgs, [i \in DOMAIN rels |-> turn(rels[i])])
InvalidStays == [][~Valid(pkgs, files, rels) => ~Valid(pkgs, files, rels')]_rels
=============================================================================
