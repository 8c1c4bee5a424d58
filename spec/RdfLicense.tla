---------------------------- MODULE RdfLicense ----------------------------
(* Licences as RDF graphs. A licence means the ways of satisfying it: a set  *)
(* of alternatives, each a set of the licences to comply with, a licence     *)
(* being an identifier with its "+" and its exception. The machine builds a  *)
(* licence on a stack: it pushes licences of every form, makes sets of the   *)
(* topmost, puts operators on the topmost, and refers again to a licence it  *)
(* named before. The result is put where documents have licences.            *)
(*   Shape = "trees": every licence of up to MaxSteps steps                  *)
(*   Shape = "values": each value of each property of each kind of licence   *)
(*   Shape = "walk":  random ones                                            *)
(*   Shape = "faults": every licence of up to MaxSteps steps with a fault    *)
EXTENDS RdfText, LicenseList, Emit
CONSTANTS Vers, Shape, MaxSteps, Leaves, Places
VARIABLES G, stack, steps, phase, place, fault

vars == <<G, stack, steps, phase, place, fault>>
Node(id, kind, name) == [id |-> id, kind |-> kind, name |-> name]
Fresh == "n" \o ToString(Len(G.nodes))
Obj(s, p, x) == IF x.k = "node" THEN Edge(s, p, x.o) ELSE St(s, p, x)
RECURSIVE Say(_, _)
Say(g, st) == IF st = <<>> THEN g ELSE Say(IF HasStatement(g, st[1]) THEN g ELSE [g EXCEPT !.st = Append(@, st[1])], Tail(st))
Plus(g, nodes, st) == Say([g EXCEPT !.nodes = @ \o nodes], st)
NodeRef(id) == [k |-> "node", o |-> id, m |-> ""]

(* --- what a licence means ------------------------------------------------------ *)
Said(g, id, p) == SelectSeq(g.st, LAMBDA t : t.s = id /\ t.p = p)
IdOf(g, n, p) == LET q == Said(g, n.id, p) IN IF q # <<>> THEN q[1].m ELSE IF n.kind = "lic" THEN Local(n) ELSE n.id
EndsInPlus(t) == SubSeq(t, Len(t), Len(t)) = "+"
RECURSIVE Alternatives(_, _)
RECURSIVE AllOf(_, _)
Product(A, B) == {a \cup b : a \in A, b \in B}
AllOf(g, q) == IF q = <<>> THEN {{}} ELSE Product(Alternatives(g, q[1]), AllOf(g, Tail(q)))
\* of the object of a statement
Alternatives(g, x) ==
  IF x.k # "node" THEN {{x.m}}
  ELSE LET n == NodeOf(g, x.o) IN
    CASE n.kind \in {"listed", "license", "simple", "lic"} -> {{IdOf(g, n, "spdx:licenseId")}}
      [] n.kind = "and" -> AllOf(g, Said(g, n.id, "spdx:member"))
      [] n.kind = "or" -> (LET q == Said(g, n.id, "spdx:member") IN UNION {Alternatives(g, q[i]) : i \in DOMAIN q})
      [] n.kind = "later" -> {{IF EndsInPlus(l) THEN l ELSE l \o "+" : l \in a} : a \in Alternatives(g, Said(g, n.id, "spdx:member")[1])}
      [] n.kind = "with" -> (LET e == Said(g, n.id, "spdx:licenseException")[1]
                                 exc == IF e.k = "node" THEN IdOf(g, NodeOf(g, e.o), "spdx:licenseExceptionId") ELSE e.m
                             IN {{l \o " WITH " \o exc : l \in a} : a \in Alternatives(g, Said(g, n.id, "spdx:member")[1])})

(* --- building ---------------------------------------------------------------------- *)
Push(nodes, st, x) == G' = Plus(G, nodes, st) /\ stack' = Append(stack, x)
LicRes(l) == Res(Listed \o l, l)
Apart(id) == id \notin Ids(G)
\* a licence by its form
PushLeaf(f) ==
  CASE Len(f) > 9 /\ SubSeq(f, 1, 9) = "resource " -> Push(<<>>, <<>>, LicRes(SubSeq(f, 10, Len(f))))
    [] f = "listed Apache-2.0" -> Apart("Apache-2.0") /\ Push(<<Node("Apache-2.0", "listed", "iri")>>, <<St("Apache-2.0", "spdx:licenseId", Lit("Apache-2.0", "Apache-2.0"))>>, NodeRef("Apache-2.0"))
    [] f = "listed no id" -> Apart("ISC") /\ Push(<<Node("ISC", "listed", "iri")>>, <<St("ISC", "spdx:name", Lit("ISC licence", "ISC licence"))>>, NodeRef("ISC"))
    [] f = "listed own" -> Apart("None-Such-1.0") /\ Push(<<Node("None-Such-1.0", "listed", "iri")>>, <<St("None-Such-1.0", "spdx:licenseId", Lit("None-Such-1.0", "None-Such-1.0"))>>, NodeRef("None-Such-1.0"))
    [] f = "listed no assertion" -> Apart("noAssertions") /\ Push(<<Node("noAssertions", "license", "iri")>>, <<St("noAssertions", "spdx:name", Lit("n", "n"))>>, NodeRef("noAssertions"))
    [] f = "license blank" -> Push(<<Node(Fresh, "license", "none")>>, <<St(Fresh, "spdx:licenseId", Lit("LGPL-2.1-only", "LGPL-2.1-only")), St(Fresh, "spdx:licenseText", Lit("MIT", "MIT"))>>, NodeRef(Fresh))
    [] f = "license plus" -> Push(<<Node(Fresh, "license", "label")>>, <<St(Fresh, "spdx:licenseId", Lit("GPL-2.0+", "GPL-2.0+"))>>, NodeRef(Fresh))
    [] f = "simple" -> Push(<<Node(Fresh, "simple", "label")>>, <<St(Fresh, "spdx:licenseId", Lit("0BSD", "0BSD"))>>, NodeRef(Fresh))
    [] f = "extracted" -> Apart("1") /\ Push(<<Node("1", "lic", "iri")>>, <<St("1", "spdx:licenseId", Lit("LicenseRef-1", "LicenseRef-1")), St("1", "spdx:extractedText", Lit("MIT", "MIT"))>>, NodeRef("1"))
    [] f = "extracted blank" -> Push(<<Node(Fresh, "lic", "none")>>, <<St(Fresh, "spdx:licenseId", Lit("LicenseRef-" \o Fresh, "LicenseRef-" \o Fresh)), St(Fresh, "spdx:extractedText", Lit("t", "t"))>>, NodeRef(Fresh))
    [] f = "none" -> Push(<<>>, <<>>, Res(Terms \o "none", "NONE"))
    [] f = "noassertion" -> Push(<<>>, <<>>, Res(Terms \o "noassertion", "NOASSERTION"))
Special(x) == x.k = "res" /\ x.m \in {"NONE", "NOASSERTION"}
KindOfObj(x) == IF x.k = "node" THEN KindOf(G, x.o) ELSE IF Special(x) THEN "special" ELSE "listed"
Tops(n) == SubSeq(stack, Len(stack) - n + 1, Len(stack))
Under(n) == SubSeq(stack, 1, Len(stack) - n)
Replace(n, nodes, st, id) == G' = Plus(G, nodes, st) /\ stack' = Append(Under(n), NodeRef(id))
MakeSet(op, n, name) ==
  /\ Len(stack) >= n
  /\ Replace(n, <<Node(Fresh, op, name)>>, [i \in 1..n |-> Obj(Fresh, "spdx:member", Tops(n)[i])], Fresh)
OrLater(name) ==
  /\ stack # <<>> /\ KindOfObj(stack[Len(stack)]) \in {"listed", "license", "simple"}
  /\ Replace(1, <<Node(Fresh, "later", name)>>, <<Obj(Fresh, "spdx:member", stack[Len(stack)])>>, Fresh)
\* the exception by reference, described with and without its identifier
Except(x) ==
  /\ stack # <<>> /\ KindOfObj(stack[Len(stack)]) \in {"listed", "license", "simple", "lic", "later"}
  /\ LET e == CASE x = "resource" -> [n |-> <<>>, s |-> <<>>, x |-> LicRes("Classpath-exception-2.0")]
                [] x = "blank" -> [n |-> <<Node(Fresh \o "x", "exc", "none")>>, s |-> <<St(Fresh \o "x", "spdx:licenseExceptionId", Lit("LLVM-exception", "LLVM-exception"))>>, x |-> NodeRef(Fresh \o "x")]
                [] x = "iri" -> (LET id == "Bison-exception-2.2" IN
                       [n |-> IF id \in Ids(G) THEN <<>> ELSE <<Node(id, "exc", "iri")>>, s |-> <<St(id, "spdx:name", Lit("Bison exception", "Bison exception"))>>, x |-> NodeRef(id)])
     IN Replace(1, <<Node(Fresh, "with", "none")>> \o e.n, <<Obj(Fresh, "spdx:member", stack[Len(stack)]), Obj(Fresh, "spdx:licenseException", e.x)>> \o e.s, Fresh)
\* a second reference to a node with a name; a set is not made a member of itself, because it is complete
Again == \E i \in DOMAIN G.nodes : G.nodes[i].name # "none" /\ G.nodes[i].kind \in {"listed", "license", "simple", "lic", "and", "or", "later"} /\ Push(<<>>, <<>>, NodeRef(G.nodes[i].id))

(* --- where licences are ------------------------------------------------------------- *)
\* place: the subject, its kind, the property, the field and whether it is a list
P(s, p, field, many) == [s |-> s, p |-> p, field |-> field, many |-> many]
PlaceOf(name) ==
  CASE name = "data" -> P("DOCUMENT", "spdx:dataLicense", "DataLicense", FALSE)
    [] name = "package concluded" -> P("p1", "spdx:licenseConcluded", "PackageLicenseConcluded", FALSE)
    [] name = "package declared" -> P("p1", "spdx:licenseDeclared", "PackageLicenseDeclared", FALSE)
    [] name = "package from files" -> P("p1", "spdx:licenseInfoFromFiles", "PackageLicenseInfoFromFiles", TRUE)
    [] name = "file concluded" -> P("f1", "spdx:licenseConcluded", "LicenseConcluded", FALSE)
    [] name = "file info" -> P("f1", "spdx:licenseInfoInFile", "LicenseInfoInFiles", TRUE)
    [] name = "snippet concluded" -> P("s1", "spdx:licenseConcluded", "SnippetLicenseConcluded", FALSE)
    [] name = "snippet info" -> P("s1", "spdx:licenseInfoInSnippet", "LicenseInfoInSnippet", TRUE)
Base(v) == [v |-> v,
  nodes |-> <<Node("DOCUMENT", "doc", "iri"), Node("p1", "pkg", "iri"), Node("f1", "file", "iri"), Node("s1", "snip", "iri"), Node("r1", "range", "none"), Node("b1", "bp", "none"), Node("e1", "bp", "none")>>,
  st |-> <<St("DOCUMENT", "spdx:specVersion", Lit(VerName(v), VerName(v))), Edge("DOCUMENT", "spdx:describesPackage", "p1"), Edge("p1", "spdx:hasFile", "f1"), Edge("s1", "spdx:snippetFromFile", "f1"),
           Edge("s1", "spdx:range", "r1"), Edge("r1", "ptr:startPointer", "b1"), Edge("r1", "ptr:endPointer", "e1"), St("b1", "ptr:offset", Lit("1", 1)), St("e1", "ptr:offset", Lit("2", 2))>>]
\* the whole stack at one place
Placed(g, name) == LET q == PlaceOf(name) IN Plus(g, <<>>, [i \in DOMAIN stack |-> Obj(q.s, q.p, stack[i])])
\* the licences that belong in the document's list
RECURSIVE Reach(_, _)
Reach(g, S) == LET next == S \cup {g.st[i].o : i \in {j \in DOMAIN g.st : g.st[j].k = "node" /\ g.st[j].s \in S}} IN IF next = S THEN S ELSE Reach(g, next)
Extracted(g) == {IdOf(g, NodeOf(g, i), "spdx:licenseId") : i \in {j \in Reach(g, {"DOCUMENT", "p1", "f1", "s1"}) : KindOf(g, j) = "lic"}}

(* --- what is not in order --------------------------------------------------------------- *)
Parents(g, id) == {g.st[i].s : i \in {j \in DOMAIN g.st : g.st[j].k = "node" /\ g.st[j].o = id /\ g.st[j].p = "spdx:member"}}
RECURSIVE Above(_, _)
Above(g, S) == LET next == S \cup UNION {Parents(g, i) : i \in S} IN IF next = S THEN S ELSE Above(g, next)
SetsOf(g) == {g.nodes[i].id : i \in {j \in DOMAIN g.nodes : g.nodes[j].kind \in {"and", "or"}}}
InUse(g) == UNION {IF stack[i].k = "node" THEN Reach(g, {stack[i].o}) ELSE {} : i \in DOMAIN stack}
Less(g, id, p) == [g EXCEPT !.st = SelectSeq(@, LAMBDA t : ~(t.s = id /\ t.p = p))]
Named(g, id) == [g EXCEPT !.nodes = [i \in DOMAIN @ |-> IF @[i].id = id /\ @[i].name = "none" THEN [@[i] EXCEPT !.name = "label"] ELSE @[i]]]
AtTop(g, kinds, op) ==   \* the operator, put on one more licence
  {Plus(g, <<Node("bad", op, "none")>>, <<Obj("bad", "spdx:member", stack[Len(stack)])>> \o (IF op = "with" THEN <<St("bad", "spdx:licenseException", LicRes("LLVM-exception"))>> ELSE <<>>)) : x \in {1} \cap (IF KindOfObj(stack[Len(stack)]) \in kinds THEN {1} ELSE {})}
Bad(o) == [k |-> "bad res", o |-> o, m |-> ""]
BadText(o) == [k |-> "bad lit", o |-> o, m |-> ""]
\* [name, graph, object in place of the topmost]
Faulty ==
  LET g == G
      top == stack[Len(stack)]
      used == InUse(g)
      ofKind(ks) == {i \in used : KindOf(g, i) \in ks}
      same(name, S) == {[f |-> name, g |-> h, o |-> top] : h \in S}
      bad(name, S) == {[f |-> name, g |-> h, o |-> NodeRef("bad")] : h \in S}
  IN same("cycle", {Plus(Named(g, e[2]), <<>>, <<Edge(e[1], "spdx:member", e[2])>>) : e \in {x \in ofKind({"and", "or"}) \X ofKind({"and", "or"}) : x[2] \in Above(g, {x[1]})}})
     \cup same("operator of itself", {Plus(Less(Named(g, i), i, "spdx:member"), <<>>, <<Edge(i, "spdx:member", i)>>) : i \in ofKind({"later", "with"})})
     \cup same("empty", {Less(g, i, "spdx:member") : i \in ofKind({"and", "or", "later", "with"})})
     \cup same("no exception", {Less(g, i, "spdx:licenseException") : i \in ofKind({"with"})})
     \cup same("no exception id", {Less(g, i, "spdx:licenseExceptionId") : i \in {j \in ofKind({"exc"}) : NodeOf(g, j).name = "none" /\ Len(Said(g, j, "spdx:licenseExceptionId")) = 1}})
     \cup same("no licence id", {Less(g, i, "spdx:licenseId") : i \in {j \in ofKind({"license", "simple"}) : NodeOf(g, j).name # "iri"}})
     \cup same("two members", {Plus(g, <<>>, <<St(i, "spdx:member", Bad(Listed \o "Zlib"))>>) : i \in ofKind({"later", "with"})})
     \cup same("unknown predicate", {Plus(g, <<>>, <<St(i, p, BadText("x"))>>) : <<i, p>> \in ofKind({"and", "or", "later", "with", "exc", "listed", "license", "simple", "lic"}) \X {"spdx:bogus", "spdx:fileName"}})
     \cup same("unknown licence", {Plus(g, <<>>, <<St(i, "spdx:member", Bad(o))>>) : <<i, o>> \in ofKind({"and", "or"}) \X {Listed \o "No-Such-Licence", NsUri \o "#LicenseRef-77"}})
     \cup same("not a licence", {Plus(g, <<>>, <<Edge(i, "spdx:member", o)>>) : <<i, o>> \in ofKind({"and", "or"}) \X {"p1", "f1", "DOCUMENT"}})
     \cup same("boolean", {Plus(g, <<>>, <<St(i, "spdx:isOsiApproved", BadText("maybe"))>>) : i \in ofKind({"listed", "license"})})
     \cup bad("or later of", AtTop(g, {"and", "or", "with", "special"}, "later"))
     \cup bad("with of", AtTop(g, {"and", "or", "with", "special"}, "with"))

(* --- the machine ---------------------------------------------------------------------------- *)
Pick(S) == {RandomElement(S)}
Init == \E v \in Vers : G = Base(v) /\ stack = <<>> /\ steps = 0 /\ phase = "build" /\ place = "" /\ fault = ""
Ops == {<<"set", op, n, name>> : op \in {"and", "or"}, n \in 1..3, name \in {"none", "label"}} \cup {<<"later", name>> : name \in {"none", "label"}}
       \cup {<<"with", x>> : x \in {"resource", "blank", "iri"}} \cup {<<"push", f>> : f \in Leaves} \cup {<<"again">>}
Do(op) == CASE op[1] = "set" -> MakeSet(op[2], op[3], op[4]) [] op[1] = "later" -> OrLater(op[2]) [] op[1] = "with" -> Except(op[2])
            [] op[1] = "push" -> PushLeaf(op[2]) [] op[1] = "again" -> Again
CanDo(op) == CASE op[1] = "set" -> Len(stack) >= op[3]
               [] op[1] = "later" -> stack # <<>> /\ KindOfObj(stack[Len(stack)]) \in {"listed", "license", "simple"}
               [] op[1] = "with" -> stack # <<>> /\ KindOfObj(stack[Len(stack)]) \in {"listed", "license", "simple", "lic", "later"}
               [] OTHER -> FALSE
Build ==
  /\ phase = "build" /\ steps < MaxSteps /\ steps' = steps + 1
  /\ \E op \in Ops : Do(op)
  /\ Len(stack') <= 3
  /\ UNCHANGED <<phase, place, fault>>
MayPlace(name) == stack # <<>> /\ (Len(stack) = 1 \/ PlaceOf(name).many)
Put1 ==
  /\ phase = "build" /\ Shape \in {"trees"}
  /\ \E name \in Places : MayPlace(name) /\ place' = name /\ G' = Placed(G, name)
  /\ phase' = "done" /\ UNCHANGED <<stack, steps, fault>>
Break ==
  /\ phase = "build" /\ Shape = "faults" /\ Len(stack) = 1
  /\ \E x \in Faulty : \E name \in Places :
       /\ G' = Plus(x.g, <<>>, <<Obj(PlaceOf(name).s, PlaceOf(name).p, x.o)>>) /\ fault' = x.f /\ place' = name
  /\ phase' = "done" /\ UNCHANGED <<stack, steps>>
\* each value of the properties of one licence
LicenceValues(h) == IF h = "boolean" THEN Same(<<"true", "false">>) ELSE IF h = "id" THEN <<>> ELSE Values(h, G.v, "1")
Vary ==
  /\ phase = "build" /\ Shape = "values" /\ steps = MaxSteps
  /\ \E i \in DOMAIN G.nodes : G.nodes[i].kind \in {"listed", "license", "simple", "exc"} /\
     LET n == G.nodes[i] IN
     \E j \in DOMAIN Props(n.kind) : LET r == Props(n.kind)[j] IN
       \E k \in DOMAIN LicenceValues(r.h) : G' = Plus([Placed(G, "package concluded") EXCEPT !.st = SelectSeq(@, LAMBDA t : ~(t.s = n.id /\ t.p = r.p))], <<>>, <<St(n.id, r.p, LicenceValues(r.h)[k])>>)
  /\ Len(stack) = 1 /\ place' = "package concluded" /\ phase' = "done" /\ UNCHANGED <<stack, steps, fault>>
Walk ==
  /\ phase = "build" /\ Shape = "walk"
  /\ \E z \in Pick(1..8) : \E op \in Pick(LET can == {o \in Ops : CanDo(o)} IN IF can = {} \/ z <= 3 \/ Len(stack) < 2 THEN {o \in Ops : o[1] = "push"} ELSE can) : \E i \in Pick(DOMAIN G.nodes) : \E place1 \in Pick(Places) :
       IF steps >= MaxSteps /\ stack # <<>> /\ (Len(stack) = 1 \/ PlaceOf(place1).many)
       THEN phase' = "done" /\ place' = place1 /\ G' = Placed(G, place1) /\ UNCHANGED <<stack, steps, fault>>
       ELSE /\ steps' = steps + 1 /\ UNCHANGED <<phase, place, fault>>
            /\ IF steps >= MaxSteps THEN MakeSet(IF z <= 4 THEN "and" ELSE "or", IF Len(stack) > 3 THEN 3 ELSE Len(stack), "none")
               ELSE IF z = 8 /\ G.nodes[i].name # "none" /\ G.nodes[i].kind \in {"listed", "license", "simple", "lic", "and", "or", "later"} THEN Push(<<>>, <<>>, NodeRef(G.nodes[i].id))
               ELSE IF op[1] = "push" /\ op[2] \in {"listed Apache-2.0", "listed no id", "listed own", "listed no assertion", "extracted"}
                        /\ ~Apart(CASE op[2] = "extracted" -> "1" [] op[2] = "listed no id" -> "ISC" [] op[2] = "listed own" -> "None-Such-1.0" [] op[2] = "listed no assertion" -> "noAssertions" [] OTHER -> "Apache-2.0")
                    THEN Push(<<>>, <<>>, LicRes("BSD-3-Clause"))
               ELSE Do(op)
Next == IF Shape = "walk" THEN Walk ELSE (Build \/ Put1 \/ Break \/ Vary)
Spec == Init /\ [][Next]_vars

Here == LET q == PlaceOf(place) IN Said(G, q.s, q.p)
Want == [i \in DOMAIN Here |-> Alternatives(G, Here[i])]
\* what is built means something: no alternative asks for nothing
Sensible == phase = "done" /\ Shape # "faults" => \A i \in DOMAIN Want : Want[i] # {} /\ \A a \in Want[i] : a # {}
\* NONE and NOASSERTION among other licences may be refused, but not left out
Mixed(i) == (\E a \in Want[i] : "NONE" \in a \/ "NOASSERTION" \in a) /\ (Len(Want) > 1 \/ \E a \in Want[i] : a \notin {{"NONE"}, {"NOASSERTION"}} \/ Want[i] # {a})
\* a licence is satisfied by at most the product of the choices it offers
Emitted == phase = "done" =>
  \A p \in Policies :
    Emit([k |-> "rdf licence", v |-> G.v, text |-> TextBy(G, p), ok |-> (Shape # "faults"), place |-> place, field |-> PlaceOf(place).field, s |-> PlaceOf(place).s,
          want |-> IF Shape = "faults" THEN <<>> ELSE Want, extracted |-> IF Shape = "faults" THEN {} ELSE Extracted(G),
          mixed |-> (Shape # "faults" /\ \E i \in DOMAIN Want : Mixed(i)), note |-> fault \o " " \o p])
=============================================================================
