------------------------------- MODULE Ident -------------------------------
(* The texts that stand for identifiers and actors.  A text grows piece by    *)
(* piece and is decoded as every kind; a value grows piece by piece and is    *)
(* encoded as every kind.                                                    *)
EXTENDS Naturals, Sequences, TLC, Str, Emit
CONSTANTS MaxPieces, SIM
VARIABLES text, parts

Pieces == <<"SPDXRef-", "DocumentRef-", ":", "a", "NONE", "NOASSERTION", " ", "\"", "\\", "{{U}}", "spdxref-", "Person", "{{CTL}}", "\n{{CR}}\n",
            "<&>", "SPDXRef", "-", "noassertion", "None", "()", "\t", "{{BOM}}">>
IdKinds == {"element", "document", "docelem"}
ActorKinds == {"creator", "annotator", "supplier", "originator"}
Unsaid == [any |-> TRUE]   \* the property says nothing of it

\* -------------------------------------------------------------------- decode
DecodeElement(s) == IF StartsWith(s, "SPDXRef-") /\ Len(s) > 8 THEN Ok(SubSeq(s, 9, Len(s))) ELSE Err
DecodeDocument(s) == IF StartsWith(s, "DocumentRef-") /\ Len(s) > 12 THEN Ok(SubSeq(s, 13, Len(s))) ELSE Err
DecodeDocElem(s) ==
  IF s \in {"NONE", "NOASSERTION"} THEN Ok([SpecialID |-> s])
  ELSE IF ~StartsWith(s, "DocumentRef-")
  THEN LET e == DecodeElement(s) IN IF IsErr(e) THEN Err ELSE Ok([ElementRefID |-> e.ok])
  ELSE LET p == SplitFirst(s, ":")
           d == DecodeDocument(p[1])
       IN IF IsErr(d) THEN Err
          ELSE IF Len(p) = 1 THEN Unsaid    \* a whole document
          ELSE LET e == DecodeElement(p[2])
               IN IF IsErr(e) THEN Err ELSE Ok([DocumentRefID |-> d.ok, ElementRefID |-> e.ok])
DecodeActor(kind, s) ==
  IF kind \in {"supplier", "originator"} /\ s = "NOASSERTION" THEN Ok([name |-> s, type |-> ""])
  ELSE LET p == SplitFirst(s, ":")
       IN IF Len(p) = 1 THEN Err
          ELSE IF Trim(p[1]) # p[1] \/ p[1] = "" \/ Trim(p[2]) = "" \/ ~(Trim(p[2]) = p[2] \/ " " \o Trim(p[2]) = p[2]) THEN Unsaid
          ELSE Ok([name |-> Trim(p[2]), type |-> p[1]])
Decode(kind, s) ==
  CASE kind = "element" -> DecodeElement(s)
    [] kind = "document" -> DecodeDocument(s)
    [] kind = "docelem" -> DecodeDocElem(s)
    [] OTHER -> DecodeActor(kind, s)

\* -------------------------------------------------------------------- encode
Prefixed(p, id) == IF StartsWith(id, p) THEN id ELSE p \o id   \* the prefix exactly once
EncodeElement(id) == Prefixed("SPDXRef-", id)
EncodeDocument(id) == Prefixed("DocumentRef-", id)
EncodeDocElem(x) ==
  IF "SpecialID" \in DOMAIN x THEN x.SpecialID
  ELSE IF "DocumentRefID" \in DOMAIN x THEN EncodeDocument(x.DocumentRefID) \o ":" \o EncodeElement(x.ElementRefID)
  ELSE EncodeElement(x.ElementRefID)
EncodeActor(kind, x) == IF x.name = "NOASSERTION" /\ kind \in {"supplier", "originator"} THEN x.name ELSE x.type \o ": " \o x.name
Encode(kind, x) ==
  CASE kind = "element" -> EncodeElement(x)
    [] kind = "document" -> EncodeDocument(x)
    [] kind = "docelem" -> EncodeDocElem(x)
    [] OTHER -> EncodeActor(kind, x)
\* values that the kind has, made of the string s
Types(kind) == IF kind \in {"creator", "annotator"} THEN {"Person", "Organization", "Tool"} ELSE {"Person", "Organization"}
ValuesOf(kind, s) ==
  CASE kind = "element" -> IF s = "" \/ StartsWith(s, "SPDXRef-") THEN {} ELSE {s}
    [] kind = "document" -> IF s = "" \/ StartsWith(s, "DocumentRef-") THEN {} ELSE {s}
    [] kind = "docelem" -> IF s = "" \/ StartsWith(s, "SPDXRef-") THEN {}
                           ELSE {[ElementRefID |-> s]} \cup {[DocumentRefID |-> "d", ElementRefID |-> s]}
                                \cup (IF StartsWith(s, "DocumentRef-") \/ HasSub(s, ":") THEN {} ELSE {[DocumentRefID |-> s, ElementRefID |-> "e"]})
                                \cup (IF s \in {"NONE", "NOASSERTION"} THEN {[SpecialID |-> s]} ELSE {})
    [] OTHER -> IF s = "" \/ Trim(s) # s \/ (s = "NOASSERTION" /\ kind \in {"supplier", "originator"}) THEN {}
                ELSE {[name |-> s, type |-> t] : t \in Types(kind)}
\* identifiers that already carry their prefix are not given a second one
Carrying(kind, s) == (kind = "element" /\ StartsWith(s, "SPDXRef-") /\ s # "SPDXRef-")
                     \/ (kind = "document" /\ StartsWith(s, "DocumentRef-") /\ s # "DocumentRef-")
Kinds == IdKinds \cup ActorKinds
EmitAll(s, n) ==
  /\ \A kd \in Kinds :
       /\ Emit([k |-> "decode", kind |-> kd, label |-> "decode " \o kd \o ToString(n), text |-> s, want |-> Decode(kd, s)])
       /\ \A x \in ValuesOf(kd, s) :
            Emit([k |-> "encode", kind |-> kd, label |-> "encode " \o kd \o ToString(n), value |-> x, want |-> Encode(kd, x), back |-> TRUE])
       /\ Carrying(kd, s) =>
            Emit([k |-> "encode", kind |-> kd, label |-> "encode prefixed " \o kd, value |-> s, want |-> Encode(kd, s), back |-> FALSE])
  /\ n = 1 => \A kd \in {"supplier", "originator"} :
       Emit([k |-> "encode", kind |-> kd, label |-> "encode special", value |-> [name |-> "NOASSERTION", type |-> ""], want |-> "NOASSERTION", back |-> TRUE])
  /\ n = 1 => \A kd \in Kinds : \A j \in {"12", "true", "{}", "[]", "[\"SPDXRef-a\"]", "{\"a\": \"SPDXRef-a\"}", "1.5", "[\"Person: a\"]"} :
       Emit([k |-> "decoderaw", kind |-> kd, label |-> "not a string", text |-> j, want |-> Err])

Init == text = "" /\ parts = 0
Add(p) == text' = text \o p /\ parts' = parts + 1
Next == /\ parts < MaxPieces
        /\ IF SIM THEN (\E i \in {RandomElement(DOMAIN Pieces)} : Add(Pieces[i])) ELSE \E i \in DOMAIN Pieces : Add(Pieces[i])
        /\ EmitAll(text', parts')
Spec == Init /\ [][Next]_<<text, parts>>

\* --------------------------------------------------------------------- facts
RoundTrip == \A kd \in Kinds : \A x \in ValuesOf(kd, text) :
  LET d == Decode(kd, Encode(kd, x)) IN d = Ok(x)
PrefixOnce == \A kd \in {"element", "document"} : text # "" =>
  LET p == IF kd = "element" THEN "SPDXRef-" ELSE "DocumentRef-" IN
  /\ StartsWith(Encode(kd, text), p)
  /\ (~HasSub(text, p) => ~HasSub(SubSeq(Encode(kd, text), 2, Len(Encode(kd, text))), p))
NothingElse == \A kd \in Kinds :   \* what decodes, encodes back to a text that decodes the same
  LET d == Decode(kd, text) IN "ok" \in DOMAIN d => (d.ok \in ValuesOf(kd, text) \/ Decode(kd, Encode(kd, d.ok)) = d
     \/ (kd \in {"element", "document"} /\ HasSub(text, "Ref-")) \/ kd = "docelem"
     \/ (kd \in {"supplier", "originator"} /\ d.ok.name = "NOASSERTION"))
=============================================================================
