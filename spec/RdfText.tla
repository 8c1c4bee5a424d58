------------------------------ MODULE RdfText ------------------------------
(* RDF/XML text of the graphs of RdfModel.                                   *)
EXTENDS RdfModel

NameAttr(n) == CASE n.name = "iri" -> " rdf:about=\"" \o UriOf(n) \o "\"" [] n.name = "label" -> " rdf:nodeID=\"" \o n.id \o "\"" [] OTHER -> ""
StartTag(n) == "<" \o TypeOf(n.kind) \o NameAttr(n) \o ">"
EndTag(n) == "</" \o TypeOf(n.kind) \o ">"
Elt(p, s) == "<" \o p \o ">" \o s \o "</" \o p \o ">"
RefTo(p, n) == "<" \o p \o (IF n.name = "label" THEN " rdf:nodeID=\"" \o n.id ELSE " rdf:resource=\"" \o UriOf(n)) \o "\"/>"
XmlHead == "<?xml version=\"1.0\"?>\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\" xmlns:rdfs=\"http://www.w3.org/2000/01/rdf-schema#\""
        \o " xmlns:spdx=\"" \o Terms \o "\" xmlns:ptr=\"http://www.w3.org/2009/pointers#\" xmlns:doap=\"http://usefulinc.com/ns/doap#\">\n"
XmlFoot == "</rdf:RDF>\n"
ValueText(t) == IF t.k \in {"lit", "bad lit"} THEN Elt(t.p, t.o) ELSE "<" \o t.p \o " rdf:resource=\"" \o t.o \o "\"/>"

(* --- writing in one step, by a policy ---------------------------------------------------- *)
\* "nested": an element where it is first met; "flat": every named node at the top level;
\* "backwards": flat, the last first, with the statements in reverse
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
RECURSIVE Describe(_, _, _)
RECURSIVE Statements(_, _, _, _)
Describe(g, id, pol) ==     \* returns [t |-> text, seen]
  LET n == NodeOf(g, id)
      r == Statements(g, IF pol.back THEN Rev(About(g, id)) ELSE About(g, id), [pol EXCEPT !.seen = @ \cup {id}], "")
  IN [t |-> StartTag(n) \o r.t \o EndTag(n) \o "\n", seen |-> r.seen]
Statements(g, q, pol, acc) ==
  IF q = <<>> THEN [t |-> acc, seen |-> pol.seen]
  ELSE LET t == q[1] IN
    IF t.k # "node" THEN Statements(g, Tail(q), pol, acc \o ValueText(t))
    ELSE IF NodeOf(g, t.o).name # "none" /\ (pol.flat \/ t.o \in pol.seen) THEN Statements(g, Tail(q), pol, acc \o RefTo(t.p, NodeOf(g, t.o)))
    ELSE LET d == Describe(g, t.o, pol) IN Statements(g, Tail(q), [pol EXCEPT !.seen = d.seen], acc \o Elt(t.p, "\n" \o d.t))
RECURSIVE TopLevel(_, _, _, _)
TopLevel(g, ids, pol, acc) ==
  IF ids = <<>> THEN acc
  ELSE IF ids[1] \in pol.seen \/ NodeOf(g, ids[1]).name = "none" THEN TopLevel(g, Tail(ids), pol, acc)
  ELSE LET d == Describe(g, ids[1], pol) IN TopLevel(g, Tail(ids), [pol EXCEPT !.seen = d.seen], acc \o d.t)
TextBy(g, policy) ==
  LET ids == [i \in DOMAIN g.nodes |-> g.nodes[i].id]
  IN XmlHead \o TopLevel(g, IF policy = "backwards" THEN Rev(ids) ELSE ids, [flat |-> policy # "nested", back |-> policy = "backwards", seen |-> {}], "") \o XmlFoot
Policies == {"nested", "flat", "backwards"}
=============================================================================
