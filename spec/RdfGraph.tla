----------------------------- MODULE RdfGraph -----------------------------
(* Graphs, grown a statement at a time, and the machine that writes a graph  *)
(* as RDF/XML: it may open a description of any named node at the top level, *)
(* write a statement of the innermost open node as a literal, a reference or *)
(* a nested description, repeat a statement, and close the node. Whatever    *)
(* order it chooses, the text has to read as Meaning(G).                     *)
(*   Shape = "orders":  every way of writing each graph of a small catalogue *)
(*   Shape = "edges":   every graph of up to MaxEdges edges between elements *)
(*   Shape = "fields":  each value of each property beside a small graph     *)
(*   Shape = "walk":    random graphs, written at random                     *)
(*   Shape = "faults":  graphs with one statement that is not in order       *)
EXTENDS RdfText, Emit
CONSTANTS Vers, Shape, MaxEdges, MaxRepeats, Catalogue
VARIABLES G, phase, steps, todo, open, seen, text, repeats, style, idle

vars == <<G, phase, steps, todo, open, seen, text, repeats, style, idle>>

(* --- growing ---------------------------------------------------------------- *)
Node(id, kind, name) == [id |-> id, kind |-> kind, name |-> name]
Plus(g, nodes, st) == [g EXCEPT !.nodes = @ \o nodes, !.st = @ \o SelectSeq(st, LAMBDA t : ~HasStatement(g, t))]
First(h, v) == Values(h, v, "1")[1]
Start(v) == [v |-> v, nodes |-> <<Node("DOCUMENT", "doc", "iri")>>,
             st |-> <<St("DOCUMENT", "spdx:specVersion", First("version", v)), St("DOCUMENT", "spdx:name", Lit("doc", "doc"))>>]
\* what a node of a kind comes with, besides its own identifier; f is a file for those that need one
Needs(v, id, kind, name, N, f) ==
  CASE kind = "pkg" -> Plus([v |-> v, nodes |-> <<>>, st |-> <<>>], <<Node(id, kind, "iri")>>, <<St(id, "spdx:name", Lit("name of " \o id, "name of " \o id))>>)
    [] kind = "file" -> [v |-> v, nodes |-> <<Node(id, kind, "iri")>>, st |-> <<St(id, "spdx:fileName", Lit("./" \o id, "./" \o id))>>]
    [] kind = "snip" -> [v |-> v, nodes |-> <<Node(id, kind, "iri"), Node(id \o "r", "range", "none"), Node(id \o "s", "bp", "none"), Node(id \o "e", "bp", "none")>>,
                         st |-> <<Edge(id, "spdx:snippetFromFile", f), Edge(id, "spdx:range", id \o "r"), Edge(id \o "r", "ptr:startPointer", id \o "s"),
                                  Edge(id \o "r", "ptr:endPointer", id \o "e"), St(id \o "s", "ptr:offset", Lit("1", 1)), St(id \o "e", "ptr:offset", Lit("20", 20)),
                                  Edge(id \o "s", "ptr:reference", f), Edge(id \o "e", "ptr:reference", f)>>]
    [] kind = "range" -> LET p == IF N \in {"1", "4", "7"} THEN <<"lp", "ptr:lineNumber">> ELSE <<"bp", "ptr:offset">>
                         IN [v |-> v, nodes |-> <<Node(id, kind, name), Node(id \o "s", p[1], "none"), Node(id \o "e", p[1], "none")>>,
                             st |-> <<Edge(id, "ptr:startPointer", id \o "s"), Edge(id, "ptr:endPointer", id \o "e"),
                                      St(id \o "s", p[2], Lit("3", 3)), St(id \o "e", p[2], Lit("4", 4)), Edge(id \o "s", "ptr:reference", f), Edge(id \o "e", "ptr:reference", f)>>]
    [] kind = "lic" -> [v |-> v, nodes |-> <<Node(id, kind, "iri")>>, st |-> <<St(id, "spdx:licenseId", Lit("LicenseRef-" \o id, "LicenseRef-" \o id)),
                        St(id, "spdx:extractedText", Lit("text of " \o id, "text of " \o id))>>]
    [] kind = "ann" -> [v |-> v, nodes |-> <<Node(id, kind, name)>>, st |-> <<St(id, "spdx:annotator", Values("annotator", v, N)[1]), St(id, "spdx:annotationDate", First("date", v)),
                        St(id, "spdx:annotationType", First("anntype", v)), St(id, "rdfs:comment", Lit("on " \o id, "on " \o id))>>]
    [] kind = "edr" -> [v |-> v, nodes |-> <<Node(id, kind, name), Node(id \o "c", "ck", "none")>>, st |-> <<St(id, "spdx:externalDocumentId", Values("docref", v, N)[1]),
                        St(id, "spdx:spdxDocument", Values("resource", v, N)[1]), Edge(id, "spdx:checksum", id \o "c"),
                        St(id \o "c", "spdx:algorithm", First("algorithm", v)), St(id \o "c", "spdx:checksumValue", Values("hash", v, N)[2])>>]
    [] kind = "rev" -> [v |-> v, nodes |-> <<Node(id, kind, name)>>, st |-> <<St(id, "spdx:reviewer", Values("reviewer", v, N)[1]), St(id, "spdx:reviewDate", First("date", v))>>]
    [] kind = "er" -> [v |-> v, nodes |-> <<Node(id, kind, name)>>, st |-> <<St(id, "spdx:referenceCategory", First("category", v)), St(id, "spdx:referenceType", First("resource", v)),
                       St(id, "spdx:referenceLocator", Lit("loc " \o N, "loc " \o N))>>]
    [] kind = "pvc" -> [v |-> v, nodes |-> <<Node(id, kind, name)>>, st |-> <<St(id, "spdx:packageVerificationCodeValue", Values("hash", v, N)[2])>>]
    [] kind = "ck" -> [v |-> v, nodes |-> <<Node(id, kind, name)>>, st |-> <<St(id, "spdx:algorithm", Values("algorithm", v, N)[2]), St(id, "spdx:checksumValue", Values("hash", v, N)[2])>>]
    [] kind = "ci" -> [v |-> v, nodes |-> <<Node(id, kind, name)>>, st |-> <<St(id, "spdx:created", First("date", v)), St(id, "spdx:creator", Values("creators", v, N)[3])>>]
    [] kind = "aop" -> [v |-> v, nodes |-> <<Node(id, kind, name)>>, st |-> <<St(id, "doap:name", Lit("project " \o N, "project " \o N))>>]
    [] kind = "rel" -> [v |-> v, nodes |-> <<Node(id, kind, name)>>, st |-> <<St(id, "spdx:relationshipType", Values("reltype", v, N)[3])>>]
Join(g, h) == Plus(g, h.nodes, h.st)
Link(g, s, p, o) == Plus(g, <<>>, <<Edge(s, p, o)>>)
\* a relationship from s to o (a node), of the n-th type
Rel(g, id, name, s, t, o) ==
  LET a == Plus(g, <<Node(id, "rel", name)>>, <<St(id, "spdx:relationshipType", Values("reltype", g.v, "1")[t]), Edge(id, "spdx:relatedSpdxElement", o)>>)
  IN Link(a, s, "spdx:relationship", id)
Elem(g, id, kind, f) == Join(g, Needs(g.v, id, kind, "iri", "1", f))

(* --- the catalogue for every order of writing --------------------------------- *)
Pkg(g, id) == Link(Elem(g, id, "pkg", ""), "DOCUMENT", "spdx:describesPackage", id)
File(g, id, p) == Link(Elem(g, id, "file", ""), p, "spdx:hasFile", id)
Graphs(v) ==
  LET g1 == Pkg(Start(v), "p1")
      g2 == File(g1, "f1", "p1")
      bare == [g1 EXCEPT !.st = SelectSeq(@, LAMBDA t : t.p # "spdx:name")]
      bare2 == [g2 EXCEPT !.st = SelectSeq(@, LAMBDA t : t.p # "spdx:name")]
  IN << Link(g2, "f1", "spdx:fileDependency", "f1"),                                            \* a file that depends on itself
        Rel(bare, "R1", "none", "DOCUMENT", 1, "p1"),                                          \* described twice over
        Rel(Rel(bare, "R1", "label", "p1", 2, "DOCUMENT"), "R2", "none", "DOCUMENT", 1, "p1"), \* described both ways
        Link(Elem(Link(bare2, "f1", "spdx:fileDependency", "f2"), "f2", "file", ""), "f2", "spdx:fileDependency", "f1"),   \* files that depend on each other
        Link(Rel(bare, "R1", "label", "p1", 3, "p1"), "DOCUMENT", "spdx:relationship", "R1"),  \* one relationship of two elements
        Elem(bare2, "s1", "snip", "f1"),
        Rel(Rel(Elem(Pkg(bare, "p2"), "f1", "file", ""), "R1", "iri", "p1", 3, "f1"), "R2", "none", "p2", 3, "f1"),   \* a file two packages contain
        Link(Elem(Link(bare, "p1", "spdx:annotation", "A1"), "A1", "ann", ""), "DOCUMENT", "spdx:annotation", "A1") >>

(* --- every small graph ----------------------------------------------------------- *)
Pool == <<Node("p1", "pkg", "iri"), Node("p2", "pkg", "iri"), Node("f1", "file", "iri"), Node("f2", "file", "iri"), Node("s1", "snip", "iri")>>
EdgePreds == <<"spdx:describesPackage", "spdx:hasFile", "spdx:fileDependency", "spdx:relationship">>
EdgeChoices(g) ==     \* subject, predicate, object
  {e \in (Ids(g)) \X {EdgePreds[i] : i \in DOMAIN EdgePreds} \X ({Pool[i].id : i \in DOMAIN Pool} \cup {"DOCUMENT"}) :
     LET from == KindOf(g, e[1])
         to == IF e[3] \in {"p1", "p2"} THEN "pkg" ELSE IF e[3] \in {"f1", "f2"} THEN "file" ELSE IF e[3] = "s1" THEN "snip" ELSE "doc"
     IN CASE e[2] = "spdx:describesPackage" -> from = "doc" /\ to = "pkg"
          [] e[2] = "spdx:hasFile" -> from = "pkg" /\ to = "file"
          [] e[2] = "spdx:fileDependency" -> from = "file" /\ to = "file"
          [] e[2] = "spdx:relationship" -> from \in ElemKinds}
KindIn(id) == Pool[CHOOSE i \in DOMAIN Pool : Pool[i].id = id].kind
\* an element is added with the first edge to it; a snippet comes with the file it is from
WithElem(g, id) ==
  IF id \in Ids(g) THEN g
  ELSE IF id = "s1" THEN (IF "f1" \in Ids(g) THEN Elem(g, "s1", "snip", "f1") ELSE Elem(Elem(g, "f1", "file", ""), "s1", "snip", "f1"))
  ELSE Elem(g, id, KindIn(id), "")
AddEdge(g, e) ==
  LET h == WithElem(g, e[3])
  IN IF e[2] = "spdx:relationship" THEN Rel(h, "R" \o ToString(Len(g.st)), "none", e[1], 1 + (Len(g.st) % 40), e[3])
     ELSE Link(h, e[1], e[2], e[3])
\* an edge not there yet; relationships with the same ends are not repeated
HasRel(g, s, o) == \E i \in DOMAIN g.st : g.st[i].p = "spdx:relationship" /\ g.st[i].s = s /\ \E j \in DOMAIN g.st : g.st[j].s = g.st[i].o /\ g.st[j].k = "node" /\ g.st[j].o = o
FreshEdges(g) == {e \in EdgeChoices(g) : IF e[2] = "spdx:relationship" THEN ~HasRel(g, e[1], e[3]) ELSE ~HasStatement(g, Edge(e[1], e[2], e[3]))}

(* --- each value of each property --------------------------------------------------- *)
Full(v) ==
  LET g1 == File(Pkg(Start(v), "p1"), "f1", "p1")
      g2 == Elem(g1, "s1", "snip", "f1")
      g3 == Rel(Rel(g2, "R1", "none", "DOCUMENT", 1, "p1"), "R2", "label", "p1", 3, "f1")
      sub(g, s, p, id, kind, name) == Link(Join(g, Needs(g.v, id, kind, name, "2", "f1")), s, p, id)
      g4 == sub(g3, "DOCUMENT", "spdx:creationInfo", "C1", "ci", "none")
      g5 == sub(g4, "p1", "spdx:packageVerificationCode", "V1", "pvc", "none")
      g6 == sub(sub(g5, "p1", "spdx:externalRef", "X1", "er", "none"), "f1", "spdx:artifactOf", "O1", "aop", "none")
      g7 == sub(sub(g6, "DOCUMENT", "spdx:externalDocumentRef", "D1", "edr", "none"), "DOCUMENT", "spdx:reviewed", "W1", "rev", "none")
      g8 == sub(sub(g7, "f1", "spdx:annotation", "A1", "ann", "none"), "DOCUMENT", "spdx:hasExtractedLicensingInfo", "L1", "lic", "iri")
      g9 == sub(sub(g8, "s1", "spdx:range", "G1", "range", "none"), "p1", "spdx:checksum", "K1", "ck", "none")
  IN g9
Named2(g, id) == NodeOf(g, id).name # "none"
Names(kind) == IF kind \in ElemKinds \cup {"lic"} THEN {"iri"} ELSE {"none", "label", "iri"}
\* a statement that may occur once takes the place of the one that is there
Give(g, s, p, val) ==
  LET g1 == IF Many(PropOf(KindOf(g, s), p).h) THEN g ELSE [g EXCEPT !.st = SelectSeq(@, LAMBDA t : ~(t.s = s /\ t.p = p))]
  IN Plus(g1, <<>>, <<St(s, p, val)>>)
\* a second node like the first in everything but its identifier or one statement, which it has differently or not at all
TwinKinds == {"pkg", "file", "lic", "rel", "ann", "er", "edr", "rev", "ck", "aop"}
OtherValues(h, v, val) == SelectSeq(Values(h, v, "5"), LAMBDA x : x.o # val.o)
Twin(g, n, i, fresh) ==    \* i: the statement that differs, or 0
  LET id == n.id \o "t"
      keep(t) == t.k # "node" \/ Named2(g, t.o)
      copy(j) == LET t == g.st[j]
                     h == PropOf(n.kind, t.p).h
                 IN IF t.p = "spdx:licenseId" THEN <<St(id, t.p, Lit("LicenseRef-" \o id, "LicenseRef-" \o id))>>
                    ELSE IF ~keep(t) THEN <<>>
                    ELSE IF j # i THEN <<[t EXCEPT !.s = id]>>
                    ELSE IF fresh /\ OtherValues(h, g.v, t) # <<>> THEN <<St(id, t.p, OtherValues(h, g.v, t)[1])>>
                    ELSE <<>>
      mine == {j \in DOMAIN g.st : g.st[j].s = n.id}
      into == SelectSeq(g.st, LAMBDA t : t.k = "node" /\ t.o = n.id /\ Many(PropOf(KindOf(g, t.s), t.p).h))
  IN Plus(g, <<Node(id, n.kind, n.name)>>,
          FlattenSeq([j \in DOMAIN g.st |-> IF j \in mine THEN copy(j) ELSE <<>>]) \o [j \in DOMAIN into |-> [into[j] EXCEPT !.o = id]])
Needed == {"spdx:relationshipType", "spdx:relatedSpdxElement", "spdx:algorithm", "spdx:externalDocumentId", "spdx:checksum", "spdx:annotator", "spdx:reviewer"}
Twins(g) ==
  UNION {LET n == g.nodes[k] IN
    {Twin(g, n, j, f) : <<j, f>> \in {x \in (DOMAIN g.st) \X BOOLEAN : g.st[x[1]].s = n.id /\ (g.st[x[1]].p \in Needed => x[2] /\ g.st[x[1]].k # "node")}}
    \cup (IF (\E r \in DOMAIN PropsIn(n.kind, g.v) : PropsIn(n.kind, g.v)[r].p = "rdfs:comment") /\ ~\E q \in DOMAIN g.st : g.st[q].s = n.id /\ g.st[q].p = "rdfs:comment"
          THEN {Plus(Twin(g, n, 0, FALSE), <<>>, <<St(n.id \o "t", "rdfs:comment", Lit("only here", "only here"))>>)} ELSE {})
    \cup (IF n.kind \in {"pkg", "file", "lic"} THEN {Twin(g, n, 0, FALSE)} ELSE {})
    : k \in {i \in DOMAIN g.nodes : g.nodes[i].kind \in TwinKinds /\ \E q \in DOMAIN g.st : g.st[q].k = "node" /\ g.st[q].o = g.nodes[i].id /\ Many(PropOf(KindOf(g, g.st[q].s), g.st[q].p).h)}}
FieldGraphs(v) ==
  LET full == Full(v) IN
  Twins(full) \cup
  UNION {LET n == full.nodes[i] IN
    UNION {LET r == PropsIn(n.kind, v)[j] IN
      {Give(full, n.id, r.p, Values(r.h, v, "7")[k]) : k \in DOMAIN Values(r.h, v, "7")}
      \cup (IF Many(r.h) /\ Values(r.h, v, "7") # <<>> THEN {Give(Give(full, n.id, r.p, Values(r.h, v, "7")[1]), n.id, r.p, Values(r.h, v, "8")[2])} ELSE {})
      \cup {Link(Join(full, Needs(v, "new1", kind, name, "9", "f1")), n.id, r.p, "new1")
              : <<kind, name>> \in {x \in {"pkg", "file", "lic", "ann", "er", "edr", "rev", "ck", "aop", "range"} \X {"none", "label", "iri"} :
                                     x[1] \in TargetKinds(r.h) /\ x[2] \in Names(x[1]) /\ Many(r.h)}}
      : j \in DOMAIN PropsIn(n.kind, v)}
    : i \in DOMAIN full.nodes}

(* --- what is not in order ------------------------------------------------------------ *)
\* (the kinds of value differ from those of good ones, whose meaning may be a record)
BadLit(o) == [k |-> "bad lit", o |-> o, m |-> ""]
BadRes(o) == [k |-> "bad res", o |-> o, m |-> ""]
BadValue(h) ==
  CASE h \in {"supplier", "originator", "reviewer", "annotator", "creators"} -> <<BadLit("nobody")>>
    [] h = "algorithm" -> <<BadRes(Terms \o "checksumAlgorithm_sha9"), BadRes(Terms \o "sha1")>>
    [] h = "reltype" -> <<BadRes(Terms \o "relationshipType_knows"), BadRes(Terms \o "describes")>>
    [] h = "anntype" -> <<BadRes(Terms \o "annotationType_note")>> [] h = "category" -> <<BadRes(Terms \o "referenceCategory_misc")>>
    [] h = "analyzed" -> <<BadLit("maybe")>> [] h = "filetypes" -> <<BadRes(Terms \o "text")>> [] h = "number" -> <<BadLit("one"), BadLit("1.5")>>
    [] h \in {"licence", "licences"} -> <<BadRes(NsUri \o "#NotALicence")>>
    [] h = "related" -> <<BadRes(NsUri \o "#NotAnElement"), BadRes(NsUri \o "#SPDXRef-")>>
    [] OTHER -> <<>>
FaultGraphs(v) ==
  LET full == Full(v) IN
  UNION {LET n == full.nodes[i] IN
    {Plus(full, <<>>, <<St(n.id, p, BadLit("x"))>>) : p \in {"spdx:bogus", "doap:created", "rdfs:label"} \cup (IF n.kind # "doc" THEN {"spdx:specVersion"} ELSE {"spdx:fileName"})}
    \cup UNION {LET r == PropsIn(n.kind, v)[j] IN {Give(full, n.id, r.p, BadValue(r.h)[k]) : k \in DOMAIN BadValue(r.h)} : j \in {q \in DOMAIN PropsIn(n.kind, v) : PropsIn(n.kind, v)[q].p # "spdx:licenseInfoFromFiles"}}
    : i \in DOMAIN full.nodes}
  \cup {[full EXCEPT !.st = SelectSeq(@, LAMBDA t : ~(t.s = b[1] /\ t.p = b[2]))]
          : b \in {<<"s1", "spdx:snippetFromFile">>, <<"G1", "ptr:endPointer">>, <<"G1", "ptr:startPointer">>, <<"s1s", "ptr:offset">>, <<"s1e", "ptr:offset">>}}
  \cup {Link(full, b[1], b[2], b[3]) : b \in {<<"p1", "spdx:hasFile", "p1">>, <<"DOCUMENT", "spdx:describesPackage", "f1">>, <<"f1", "spdx:fileDependency", "p1">>,
                                              <<"p1", "spdx:hasFile", "s1">>, <<"f1", "spdx:fileDependency", "s1">>, <<"DOCUMENT", "spdx:describesPackage", "s1">>}}
  \cup {Plus(full, <<Node("DOCUMENT2", "doc", "iri")>>, <<>>)}

(* --- random graphs ---------------------------------------------------------------------- *)
Pick(S) == {RandomElement(S)}
AnyFile(g) == LET q == OfKind(g, {"file"}) IN IF q = <<>> THEN "" ELSE q[1].id
Files(g) == {x.id : x \in {g.nodes[i] : i \in {j \in DOMAIN g.nodes : g.nodes[j].kind = "file"}}}
NamedOf(g, kinds) == {g.nodes[i].id : i \in {j \in DOMAIN g.nodes : g.nodes[j].kind \in kinds /\ g.nodes[j].name # "none"}}
\* one random statement, with what it leads to
Ns10 == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Grown(g, s, r, kind, name, N, f, old, val) ==
  LET id == kind \o ToString(Len(g.nodes))
      vs == Values(r.h, g.v, N)
      may == Many(r.h) \/ \A i \in DOMAIN g.st : ~(g.st[i].s = s /\ g.st[i].p = r.p)
      news == IF kind \in {"range", "snip"} THEN f # "" ELSE TRUE
  IN IF ~may THEN g
     ELSE IF kind # "" /\ old # "" THEN Link(g, s, r.p, old)
     ELSE IF kind # "" /\ kind # "doc" /\ news THEN Link(Join(g, Needs(g.v, id, kind, name, N, f)), s, r.p, id)
     ELSE IF vs # <<>> THEN Plus(g, <<>>, <<St(s, r.p, vs[1 + (val % Len(vs))])>>)
     ELSE g
\* relationships are given something to relate to when the graph is complete
RECURSIVE Related(_, _, _)
Related(g, i, salt) ==
  IF i > Len(g.nodes) THEN g
  ELSE IF g.nodes[i].kind # "rel" \/ \E j \in DOMAIN g.st : g.st[j].s = g.nodes[i].id /\ g.st[j].p = "spdx:relatedSpdxElement" THEN Related(g, i + 1, salt)
  ELSE LET q == OfKind(g, ElemKinds)
           vs == Values("related", g.v, "1")
           x == (salt + 7 * i) % (Len(q) + Len(vs))
       IN Related(Plus(g, <<>>, <<IF x < Len(q) THEN Edge(g.nodes[i].id, "spdx:relatedSpdxElement", q[x + 1].id)
                                  ELSE St(g.nodes[i].id, "spdx:relatedSpdxElement", vs[x - Len(q) + 1])>>), i + 1, salt)
Repairable(h) == h # "related" \* kept for when the graph is complete
GrowAtRandom ==
  \E s \in Pick(Ids(G)) :
  \E j \in Pick(DOMAIN PropsIn(KindOf(G, s), G.v)) :
  \E N \in Pick(Ns10) : \E val \in Pick(1..60) : \E fresh \in Pick(1..3) :
    LET r == PropsIn(KindOf(G, s), G.v)[j]
        fixed == KindOf(G, s) \in {"range", "bp", "lp"}
        ks == TargetKinds(r.h) \ {"doc"}
    IN \E kind \in Pick(IF ks = {} THEN {""} ELSE ks) :
       \E name \in Pick(IF kind = "" THEN {""} ELSE Names(kind)) :
       \E f \in Pick(IF Files(G) = {} THEN {""} ELSE Files(G)) :
       \E old \in Pick(IF fresh = 1 \/ kind = "" \/ kind = "range" \/ NamedOf(G, {kind}) = {} THEN {""} ELSE NamedOf(G, {kind})) :
         G' = IF fixed \/ r.h = "related" \/ r.h = "version" THEN G ELSE Grown(G, s, r, IF r.h \in {"licence", "licences"} /\ fresh = 2 THEN "" ELSE kind, name, N, f, old, val)
RootSnippet ==
  \E f \in Pick(IF Files(G) = {} THEN {""} ELSE Files(G)) :
     G' = IF f = "" THEN G ELSE Join(G, Needs(G.v, "snip" \o ToString(Len(G.nodes)), "snip", "iri", "1", f))

(* --- writing ------------------------------------------------------------------------------ *)
Top == open[Len(open)]
\* moves: what may be written next
Move(a, i, id) == [a |-> a, i |-> i, id |-> id]
Named(id) == NodeOf(G, id).name # "none"
Pending(id) == {i \in todo : G.st[i].s = id}
\* the document is described at the top level only, where the RDF loader finds it
Nestable(o, i) == o # "DOCUMENT" /\ ((Named(o) /\ (Pending(o) \ {i} # {} \/ repeats > 0)) \/ o \notin seen) /\ Len(open) < 12
WriteMoves(i) == LET t == G.st[i] IN
  IF t.k # "node" THEN {Move("value", i, "")}
  ELSE (IF Named(t.o) THEN {Move("refer", i, "")} ELSE {}) \cup (IF Nestable(t.o, i) THEN {Move("nest", i, t.o)} ELSE {})
\* a description of a node described before has to say something, or is a repetition
MayClose == (Named(Top) \/ Pending(Top) = {}) /\ ~idle
Unseen == {id \in Ids(G) : id \notin seen}
Moves ==
  IF open = <<>>
  THEN {Move("top", 0, id) : id \in {x \in Ids(G) : Named(x) /\ (x \notin seen \/ Pending(x) # {} \/ repeats > 0)}}
       \cup (IF todo = {} /\ Unseen = {} THEN {Move("end", 0, "")} ELSE {})
  ELSE UNION {WriteMoves(i) : i \in Pending(Top)}
       \cup (IF repeats > 0 THEN UNION {{m \in WriteMoves(i) : m.a # "nest" \/ Named(m.id)} : i \in {j \in DOMAIN G.st : j \notin todo /\ G.st[j].s = Top}} ELSE {})
       \cup (IF MayClose THEN {Move("close", 0, "")} ELSE {})
Repeats(m) == (m.a \in {"top", "nest"} /\ m.id \in seen /\ Pending(m.id) \ {m.i} = {}) \/ (m.i # 0 /\ m.i \notin todo)
\* among the orders of writing, a node opened first is given the statements that lead nowhere at once
Opening(m) == IF Shape = "orders" /\ m.a \in {"top", "nest"} THEN {i \in Pending(m.id) : G.st[i].k # "node"} ELSE {}
RECURSIVE OpeningText(_, _)
OpeningText(S, i) == IF i > Len(G.st) THEN "" ELSE (IF i \in S THEN ValueText(G.st[i]) ELSE "") \o OpeningText(S, i + 1)
Write(m) ==
  /\ repeats' = IF Repeats(m) THEN repeats - 1 ELSE repeats
  /\ todo' = todo \ ({m.i} \cup Opening(m))
  /\ seen' = IF m.id # "" THEN seen \cup {m.id} ELSE seen
  /\ open' = CASE m.a = "top" -> <<m.id>> [] m.a = "nest" -> Append(open, m.id) [] m.a = "close" -> SubSeq(open, 1, Len(open) - 1) [] OTHER -> open
  \* closing a nested description closes the statement that leads to it
  /\ text' = text \o (CASE m.a = "top" -> StartTag(NodeOf(G, m.id)) \o OpeningText(Opening(m), 1)
                        [] m.a = "value" -> ValueText(G.st[m.i])
                        [] m.a = "refer" -> RefTo(G.st[m.i].p, NodeOf(G, G.st[m.i].o))
                        [] m.a = "nest" -> "<" \o G.st[m.i].p \o ">\n" \o StartTag(NodeOf(G, m.id)) \o OpeningText(Opening(m), 1)
                        [] m.a = "close" -> EndTag(NodeOf(G, Top)) \o (IF Len(open) = 1 THEN "\n" ELSE "</" \o style[Len(style)] \o ">\n")
                        [] OTHER -> "")
  /\ idle' = (m.a \in {"top", "nest"} /\ m.id \in seen /\ ~Repeats(m))
  /\ style' = CASE m.a = "nest" -> Append(style, G.st[m.i].p) [] m.a = "close" /\ Len(open) > 1 -> SubSeq(style, 1, Len(style) - 1) [] OTHER -> style
  /\ phase' = IF m.a = "end" THEN "done" ELSE phase
  /\ UNCHANGED <<G, steps>>

(* --- the machine ---------------------------------------------------------------------------- *)
Begin(g) ==
  /\ G = g /\ todo = DOMAIN g.st /\ open = <<>> /\ seen = {} /\ text = XmlHead /\ repeats = MaxRepeats /\ style = <<>> /\ steps = 0 /\ idle = FALSE
Init == \E v \in Vers :
  CASE Shape = "orders" -> \E i \in Catalogue : Begin(Graphs(v)[i]) /\ phase = "write"
    [] Shape = "fields" -> \E g \in FieldGraphs(v) : Begin(g) /\ phase = "done"
    [] Shape = "faults" -> \E g \in FaultGraphs(v) : Begin(g) /\ phase = "done"
    [] Shape = "edges" -> Begin(Start(v)) /\ phase = "grow"
    [] Shape = "walk" -> Begin(File(Pkg(Start(v), "p1"), "f1", "p1")) /\ phase = "grow"
Case(t, note) == Emit([k |-> "rdf", v |-> G.v, text |-> t, ok |-> (Shape # "faults"), want |-> IF Shape = "faults" THEN Nil ELSE Meaning(G), note |-> note])
Grow ==
  /\ phase = "grow"
  /\ IF Shape = "edges"
     THEN /\ steps < MaxEdges
          /\ \E e \in FreshEdges(G) : G' = AddEdge(G, e)
          /\ steps' = steps + 1 /\ phase' = "grow"
          /\ UNCHANGED <<todo, open, seen, text, repeats, style, idle>>
     ELSE /\ steps' = steps + 1
          /\ UNCHANGED <<open, seen, text, repeats, style, idle>>
          /\ IF steps < MaxEdges
             THEN phase' = "grow" /\ UNCHANGED todo /\ (\E z \in Pick(1..12) : IF z = 1 THEN RootSnippet ELSE GrowAtRandom)
             ELSE \E salt \in Pick(1..100) : G' = Related(G, 1, salt) /\ phase' = "write" /\ todo' = DOMAIN G'.st
WriteStep ==
  /\ phase = "write"
  /\ IF Shape = "walk"
     THEN \E z \in Pick(1..10) : \E m \in Pick(LET ms == {x \in Moves : x.a \notin {"close", "top"} /\ ~Repeats(x)} IN IF ms = {} \/ z < 3 THEN Moves ELSE ms) : Write(m)
     ELSE \E m \in Moves : Write(m)
Next == Grow \/ WriteStep
Spec == Init /\ [][Next]_vars

\* every text is complete, and every element is read
Complete == phase = "done" => (IF Shape \in {"orders", "walk"} THEN todo = {} /\ open = <<>> /\ Unseen = {} ELSE TRUE)
Reached == phase \in {"write", "done"} /\ Shape # "faults" => AllReached(G)
\* the meaning does not depend on the order of the statements
SameLists(a, b) == \A k \in {"Packages", "Files", "OtherLicenses"} :
  {a[k][i] : i \in DOMAIN a[k]} = {b[k][i] : i \in DOMAIN b[k]} /\ Len(a[k]) = Len(b[k])
\* each element is listed where it belongs: once by every package that has it, or once as unpackaged
OncePerOwner == phase = "done" /\ Shape # "faults" =>
  LET m == Meaning(G)
      n(id) == Cardinality({<<i, j>> \in {<<x, y>> \in (DOMAIN m.Packages) \X (1..Len(G.nodes)) : y \in DOMAIN Get(m.Packages[x], "Files", <<>>)} :
                 m.Packages[i].Files[j].FileSPDXIdentifier = id})
      u(id) == Cardinality({i \in DOMAIN m.Files : m.Files[i].FileSPDXIdentifier = id})
      owners(id) == Cardinality({i \in DOMAIN G.st : G.st[i].p = "spdx:hasFile" /\ G.st[i].o = id})
  IN \A id \in Files(G) : n(id) = owners(id) /\ u(id) = (IF owners(id) = 0 THEN 1 ELSE 0)
Emitted ==
  CASE Shape \in {"orders", "walk"} -> phase = "done" => Case(text \o XmlFoot, Shape)
    [] Shape = "edges" -> steps > 0 => \A p \in Policies : Case(TextBy(G, p), p)
    [] OTHER -> phase = "done" => \A p \in Policies : Case(TextBy(G, p), p)
=============================================================================
