------------------------------ MODULE Dispatch ------------------------------
(* Reading into a value the caller supplies, in every format: the read looks *)
(* at the destination, loads the input, finds the version it declares, reads *)
(* it as that version, converts, and only then stores.  Whatever fails, the  *)
(* destination is as it was.                                                 *)
EXTENDS TVParser, DocModel, Emit
CONSTANT Formats
\* dst: <<>> while the destination is as it was, else <<what it holds>>
VARIABLES in, stage, val, dst

Docs == {"*v21", "*v22", "*v23"}
VersionOf == [d \in Docs |-> CASE d = "*v21" -> 21 [] d = "*v22" -> 22 [] d = "*v23" -> 23]
NotDocs == {"nil", "v22", "v23", "nil *v21", "nil *v23", "**v22", "**v23", "nil **v23", "*any", "*any v23", "*int", "*string", "*package",
            "*file", "*struct", "map", "*map", "*slice", "string", "func", "chan", "struct"}

(* --- what the input declares ---------------------------------------------- *)
\* raw: as written; v: the version it means, 0 if none that is supported
Decl(raw, v) == [raw |-> raw, v |-> v]
Good == {Decl("SPDX-2.1", 21), Decl("SPDX-2.2", 22), Decl("SPDX-2.3", 23)}
BadText == {Decl(x, 0) : x \in {"SPDX-2.0", "SPDX-2.4", "SPDX-3.0", "SPDX-2.30", "SPDX-2", "2.3", "spdx-2.3", "SPDX 2.3", "SPDX-2.3 x", "x SPDX-2.3",
                                "SPDX-2.2.1", "SPDX-2,3", "NOASSERTION"}}
\* JSON and YAML: the text of the value
JsonDecls == {Decl("\"" \o d.raw \o "\"", d.v) : d \in Good \cup BadText}
             \cup {Decl(x, 0) : x \in {"2.3", "null", "true", "23", "[\"SPDX-2.3\"]", "{\"v\": \"SPDX-2.3\"}", "\"\"", "\" SPDX-2.3\"", "\"SPDX-2.3\\n\""}}
Absent == Decl("", 0)

JsonPlaces == {"first", "middle", "last"}
\* declared, but not where a declaration is
JsonDecoys == {"nested", "in package", "key in other case", "in a comment"}
TVPlaces == {"first", "second", "before creator", "after creator", "last"}
TVDecoys == {"in text", "in comment line", "tag in other case"}
RdfPlaces == {"first", "last", "about"}
RdfDecoys == {"in comment", "other namespace"}

(* --- bodies --------------------------------------------------------------- *)
\* base: means something in every version; v22, v23: uses what that version added
Bodies == {"base", "v22", "v23"}
\* where the text goes wrong, after everything else was in order
Faults(f) == CASE f = "tv" -> {"none", "last tag", "open text", "no colon"}
               [] f \in {"json", "yaml"} -> {"none", "cut", "type", "id", "trailing"}
               [] f = "rdf" -> {"none", "cut", "predicate", "no document"}
\* the root of the input is not a document at all
Roots(f) == CASE f = "tv" -> {"doc", "empty", "blank", "comment"}
              [] f \in {"json", "yaml"} -> {"doc", "list", "string", "number", "null", "empty", "garbage", "empty object"}
              [] f = "rdf" -> {"doc", "empty", "garbage", "html"}

\* tag-value
TVBody(b) ==
  << <<"DataLicense", "CC0-1.0">>, <<"SPDXID", "SPDXRef-DOCUMENT">>, <<"DocumentName", "n">>, <<"DocumentNamespace", "http://x.org/d">>,
     <<"Creator", "Tool: t">>, <<"Created", "2010-01-29T18:30:22Z">>,
     <<"PackageName", "p">>, <<"SPDXID", "SPDXRef-p">>, <<"PackageVersion", "1">>, <<"PackageChecksum", "SHA1: ab">> >>
  \o (CASE b = "base" -> <<>>
        [] b = "v22" -> << <<"PackageAttributionText", "thanks">>, <<"Relationship", "SPDXRef-p CONTAINS NOASSERTION">> >>
        [] b = "v23" -> << <<"PrimaryPackagePurpose", "SOURCE">>, <<"PackageChecksum", "BLAKE3: cd">> >>)
  \o << <<"FileName", "f">>, <<"SPDXID", "SPDXRef-f">>, <<"FileComment", "l1\nl2">>, <<"LicenseID", "LicenseRef-1">>, <<"ExtractedText", "t">> >>
InsertPair(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
TVPos(q, place) == CASE place = "first" -> 1 [] place = "second" -> 2 [] place = "before creator" -> 5 [] place = "after creator" -> 6
                     [] place = "last" -> Len(q) + 1
TVPairs(i) ==
  LET q == TVBody(i.body)
      p == IF i.place = "none" THEN q
           ELSE IF i.place \in TVDecoys
           THEN (CASE i.place = "in text" -> InsertPair(q, 4, <<"DocumentComment", "a\nSPDXVersion: " \o i.decl.raw \o "\nb">>)
                   [] i.place = "tag in other case" -> InsertPair(q, 1, <<"SpdxVersion", i.decl.raw>>)
                   [] i.place = "in comment line" -> q)
           ELSE InsertPair(q, TVPos(q, i.place), <<"SPDXVersion", i.decl.raw>>)
  IN IF i.fault = "last tag" THEN Append(p, <<"PackageVersion", "2">>) ELSE p
TVTail(i) == CASE i.fault = "open text" -> "LicenseComment: <text>x\n" [] i.fault = "no colon" -> "LicenseComment x\n" [] OTHER -> ""
TVHead(i) == IF i.place = "in comment line" THEN "# SPDXVersion: " \o i.decl.raw \o "\n" ELSE ""
RECURSIVE PairLines(_)
PairLines(ps) == IF ps = <<>> THEN ""
                 ELSE (IF HasSub(ps[1][2], "\n") THEN ps[1][1] \o ": <text>" \o ps[1][2] \o "</text>\n" ELSE ps[1][1] \o ": " \o ps[1][2] \o "\n")
                      \o PairLines(Tail(ps))
TVText(i) == TVHead(i) \o PairLines(TVPairs(i)) \o TVTail(i)
TVMeaning(i) ==
  LET v == IF i.place \in TVPlaces THEN i.decl.v ELSE 0
      S == StepAll(ParseInit(v), TVPairs(i))
  IN IF v = 0 THEN Err ELSE IF Accepted(S) /\ TVTail(i) = "" THEN Ok([v |-> v, doc |-> DocVal(S)]) ELSE Err

\* JSON and YAML: members in order, each a key and the text of its value
JsonPkg23(b) ==
  "{\"name\": \"p\", \"SPDXID\": \"SPDXRef-p\", \"externalRefs\": [{\"referenceCategory\": \"PACKAGE_MANAGER\", \"referenceType\": \"purl\", \"referenceLocator\": \"l\"}], "
  \o (IF b = "v22" THEN "\"attributionTexts\": [\"thanks\"], \"hasFiles\": [\"SPDXRef-f\"], " ELSE "")
  \o (IF b = "v23" THEN "\"primaryPackagePurpose\": \"SOURCE\", " ELSE "")
JsonMembers(i) ==
  << <<"dataLicense", "\"CC0-1.0\"">>, <<"SPDXID", "\"SPDXRef-DOCUMENT\"">>, <<"name", "\"n\"">>,
     <<"creationInfo", "{\"created\": \"2010-01-29T18:30:22Z\", \"creators\": [\"Tool: t\"]"
        \o (IF i.place = "nested" THEN ", \"spdxVersion\": " \o i.decl.raw ELSE "") \o "}">>,
     <<"packages", "[" \o JsonPkg23(i.body) \o (IF i.place = "in package" THEN "\"spdxVersion\": " \o i.decl.raw \o ", " ELSE "")
        \o "\"versionInfo\": \"1\"}]">>,
     <<"files", "[{\"fileName\": \"f\", \"SPDXID\": \"SPDXRef-f\"}]">> >>
  \o (IF i.body = "v22" THEN << <<"documentDescribes", "[\"SPDXRef-p\"]">> >> ELSE <<>>)
  \o (IF i.place = "in a comment" THEN << <<"comment", "\"spdxVersion: SPDX-2.3, \\\"spdxVersion\\\": \\\"SPDX-2.3\\\"\"">> >> ELSE <<>>)
  \o (CASE i.fault = "type" -> << <<"annotations", "[{\"comment\": [5]}]">> >>
        [] i.fault = "id" -> << <<"relationships", "[{\"spdxElementId\": \"SPDXRef-p\", \"relatedSpdxElement\": \"f\", \"relationshipType\": \"OTHER\"}]">> >>
        [] OTHER -> <<>>)
JsonPos(q, place) == CASE place = "first" -> 1 [] place = "middle" -> 4 [] place = "last" -> Len(q) + 1
AllMembers(i) ==
  LET q == JsonMembers(i)
  IN CASE i.place \in JsonPlaces -> InsertPair(q, JsonPos(q, i.place), <<"spdxVersion", i.decl.raw>>)
       [] i.place = "key in other case" -> InsertPair(q, 1, <<"spdxversion", i.decl.raw>>)
       [] OTHER -> q
RECURSIVE JoinMembers(_, _)
JoinMembers(q, yaml) ==
  IF q = <<>> THEN ""
  ELSE (IF yaml THEN q[1][1] \o ": " \o q[1][2] \o "\n" ELSE "\"" \o q[1][1] \o "\": " \o q[1][2] \o (IF Len(q) > 1 THEN ",\n" ELSE ""))
       \o JoinMembers(Tail(q), yaml)
JsonText(i) ==
  LET yaml == i.f = "yaml"
      t == IF yaml THEN JoinMembers(AllMembers(i), TRUE) ELSE "{" \o JoinMembers(AllMembers(i), FALSE) \o "}"
  IN CASE i.fault = "cut" -> IF yaml THEN t \o "relationships: [" ELSE SubSeq(t, 1, Len(t) - 1)
       [] i.fault = "trailing" -> t \o (IF yaml THEN "x: [\n" ELSE " x")
       [] OTHER -> t
JsonDoc(i, v) ==
  LET pkg == ("PackageName" :> "p") @@ ("PackageSPDXIdentifier" :> "p") @@ ("PackageVersion" :> "1") @@ ("FilesAnalyzed" :> (v >= 22))
             @@ ("PackageExternalReferences" :> <<[Category |-> IF v >= 22 THEN "PACKAGE-MANAGER" ELSE "PACKAGE_MANAGER", RefType |-> "purl", Locator |-> "l"]>>)
             @@ (IF i.body = "v22" /\ v >= 22 THEN "PackageAttributionTexts" :> <<"thanks">> ELSE Nil)
             @@ (IF i.body = "v23" /\ v >= 23 THEN "PrimaryPackagePurpose" :> "SOURCE" ELSE Nil)
      rel(a, t, b) == [RefA |-> [ElementRefID |-> a], RefB |-> [ElementRefID |-> b], Relationship |-> t]
  IN ("SPDXVersion" :> VerName(v)) @@ ("DataLicense" :> "CC0-1.0") @@ ("SPDXIdentifier" :> "DOCUMENT") @@ ("DocumentName" :> "n")
     @@ ("CreationInfo" :> [Created |-> "2010-01-29T18:30:22Z", Creators |-> <<[Creator |-> "t", CreatorType |-> "Tool"]>>])
     @@ ("Packages" :> <<pkg>>) @@ ("Files" :> <<[FileName |-> "f", FileSPDXIdentifier |-> "f"]>>)
     @@ (IF i.body = "v22" /\ v >= 22
         THEN "Relationships" :> <<rel("DOCUMENT", "DESCRIBES", "p"), rel("p", "CONTAINS", "f")>> ELSE Nil)
JsonMeaning(i) ==
  LET v == IF i.place \in JsonPlaces THEN i.decl.v ELSE 0
  IN IF v = 0 \/ i.fault # "none" THEN Err ELSE Ok([v |-> v, doc |-> JsonDoc(i, v)])

\* RDF
XmlNs == "xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\" xmlns:rdfs=\"http://www.w3.org/2000/01/rdf-schema#\" xmlns:spdx=\"http://spdx.org/rdf/terms#\""
         \o " xmlns:o=\"http://other.org/terms#\""
SpecVersion(i) == "<spdx:specVersion>" \o i.decl.raw \o "</spdx:specVersion>"
RdfText(i) ==
  LET open == "<?xml version=\"1.0\"?>\n<rdf:RDF " \o XmlNs \o ">"
      body == "<spdx:SpdxDocument rdf:about=\"http://x.org/d#SPDXRef-DOCUMENT\">"
        \o (IF i.place = "first" THEN SpecVersion(i) ELSE "")
        \o (IF i.place = "in comment" THEN "<!-- " \o SpecVersion(i) \o " -->" ELSE "")
        \o (IF i.place = "other namespace" THEN "<o:specVersion>" \o i.decl.raw \o "</o:specVersion>" ELSE "")
        \o "<spdx:name>n</spdx:name><spdx:dataLicense rdf:resource=\"http://spdx.org/licenses/CC0-1.0\"/>"
        \o "<spdx:creationInfo><spdx:CreationInfo><spdx:created>2010-01-29T18:30:22Z</spdx:created><spdx:creator>Tool: t</spdx:creator></spdx:CreationInfo></spdx:creationInfo>"
        \o "<rdfs:comment>c</rdfs:comment>"
        \o "<spdx:hasExtractedLicensingInfo><spdx:ExtractedLicensingInfo rdf:about=\"http://x.org/d#LicenseRef-1\">"
        \o "<spdx:licenseId>LicenseRef-1</spdx:licenseId><spdx:extractedText>t</spdx:extractedText></spdx:ExtractedLicensingInfo></spdx:hasExtractedLicensingInfo>"
        \o (IF i.fault = "predicate" THEN "<spdx:bogus>x</spdx:bogus>" ELSE "")
        \o (IF i.place = "last" THEN SpecVersion(i) ELSE "")
        \o "</spdx:SpdxDocument>"
      about == IF i.place = "about" THEN "<spdx:SpdxDocument rdf:about=\"http://x.org/d#SPDXRef-DOCUMENT\">" \o SpecVersion(i) \o "</spdx:SpdxDocument>" ELSE ""
      t == open \o (IF i.fault = "no document" THEN "<spdx:Package rdf:about=\"http://x.org/d#SPDXRef-p\">" \o SpecVersion(i) \o "</spdx:Package>" ELSE body \o about)
  IN IF i.fault = "cut" THEN t ELSE t \o "</rdf:RDF>\n"
RdfDoc(v) ==
  ("SPDXVersion" :> VerName(v)) @@ ("DataLicense" :> "CC0-1.0") @@ ("SPDXIdentifier" :> "DOCUMENT") @@ ("DocumentName" :> "n")
  @@ ("DocumentNamespace" :> "http://x.org/d") @@ ("DocumentComment" :> "c")
  @@ ("CreationInfo" :> [Created |-> "2010-01-29T18:30:22Z", Creators |-> <<[Creator |-> "t", CreatorType |-> "Tool"]>>])
  @@ ("OtherLicenses" :> <<[LicenseIdentifier |-> "LicenseRef-1", ExtractedText |-> "t"]>>)
RdfMeaning(i) ==
  LET v == IF i.place \in RdfPlaces /\ i.decl.v >= 22 THEN i.decl.v ELSE 0    \* RDF is defined from 2.2 on
  IN IF v = 0 \/ i.fault # "none" THEN Err ELSE Ok([v |-> v, doc |-> RdfDoc(v)])

RootText(i) ==
  CASE i.root = "empty" -> ""
    [] i.root = "blank" -> "\n  \n\t\n" [] i.root = "comment" -> "# SPDXVersion: SPDX-2.3\n"
    [] i.root = "list" -> "[{\"spdxVersion\": \"SPDX-2.3\"}]" [] i.root = "string" -> "\"spdxVersion\"" [] i.root = "number" -> "23"
    [] i.root = "null" -> "null" [] i.root = "garbage" -> (IF i.f = "rdf" THEN "not xml at all" ELSE "{\"spdxVersion\": [}")
    [] i.root = "empty object" -> "{}" [] i.root = "html" -> "<html><body>x</body></html>"
Text(i) == IF i.root # "doc" THEN RootText(i)
           ELSE CASE i.f = "tv" -> TVText(i) [] i.f \in {"json", "yaml"} -> JsonText(i) [] i.f = "rdf" -> RdfText(i)
Meaning(i) == IF i.root # "doc" THEN Err
              ELSE CASE i.f = "tv" -> TVMeaning(i) [] i.f \in {"json", "yaml"} -> JsonMeaning(i) [] i.f = "rdf" -> RdfMeaning(i)

(* --- the grid ---------------------------------------------------------------- *)
Places(f) == CASE f = "tv" -> TVPlaces [] f = "rdf" -> RdfPlaces [] OTHER -> JsonPlaces
Decoys(f) == CASE f = "tv" -> TVDecoys [] f = "rdf" -> RdfDecoys [] OTHER -> JsonDecoys
Decls(f) == IF f \in {"json", "yaml"} THEN JsonDecls ELSE Good \cup BadText
GoodDecls(f) == {d \in Decls(f) : d.v # 0}
Inp(f, d, p, b, fa, r) == [f |-> f, decl |-> d, place |-> p, body |-> b, fault |-> fa, root |-> r]
Any1(S) == CHOOSE x \in S : TRUE
FirstPlace(f) == "first"
Inputs(f) ==
  {Inp(f, d, p, b, "none", "doc") : d \in Decls(f), p \in Places(f), b \in Bodies}
  \cup {Inp(f, d, p, "base", "none", "doc") : d \in GoodDecls(f), p \in Decoys(f)}
  \cup {Inp(f, Absent, "none", b, "none", "doc") : b \in Bodies}
  \cup {Inp(f, d, p, b, fa, "doc") : d \in GoodDecls(f), p \in Places(f), b \in {"base", "v22"}, fa \in Faults(f)}
  \cup {Inp(f, Absent, "none", "base", "none", r) : r \in Roots(f) \ {"doc"}}
\* inputs worth trying with every kind of destination
Telling(f) ==
  {Inp(f, d, FirstPlace(f), "base", fa, "doc") : d \in GoodDecls(f), fa \in {"none", Any1(Faults(f) \ {"none"})}}
  \cup {Inp(f, Absent, "none", "base", "none", "doc"), Inp(f, Absent, "none", "base", "none", "empty")}

Prior == {"empty", "full"}
Init ==
  /\ \E f \in Formats :
       \/ in \in [i : Inputs(f), to : Docs, prior : Prior]
       \/ in \in [i : Telling(f), to : NotDocs, prior : {"empty"}]
  /\ stage = "start" /\ val = Err /\ dst = <<>>

Outcome == IF stage = "stored" THEN [doc |-> dst[1]] ELSE [err |-> TRUE]
Fail == stage' = "failed" /\ UNCHANGED <<val, dst>>
Finish == UNCHANGED in
CheckDest == stage = "start" /\ Finish /\ IF in.to \in Docs THEN stage' = "destination" /\ UNCHANGED <<val, dst>> ELSE Fail
Load == stage = "destination" /\ Finish /\ IF in.i.root = "doc" THEN stage' = "loaded" /\ UNCHANGED <<val, dst>> ELSE Fail
Parse == stage = "loaded" /\ Finish
         /\ \E m \in {Meaning(in.i)} : IF IsErr(m) THEN Fail ELSE stage' = "parsed" /\ val' = m /\ UNCHANGED dst
ConvertTo == stage = "parsed" /\ Finish
             /\ LET w == VersionOf[in.to]
                IN val' = Ok([v |-> w, doc |-> ConvertAlong(val.ok.doc, Between(val.ok.v, w))])
             /\ stage' = "converted" /\ UNCHANGED dst
Store == stage = "converted" /\ Finish /\ dst' = <<val.ok.doc>> /\ stage' = "stored" /\ UNCHANGED val
Report == /\ stage \in {"stored", "failed"} /\ Finish /\ stage' = "end" /\ UNCHANGED <<val, dst>>
          /\ Emit([k |-> "dispatch", f |-> in.i.f, to |-> in.to, prior |-> in.prior, text |-> Text(in.i), want |-> Outcome,
                   label |-> in.i.f \o " " \o in.i.decl.raw \o " " \o in.i.place \o " " \o in.i.body \o " " \o in.i.fault \o " " \o in.i.root
                             \o " -> " \o in.to \o " " \o in.prior])
Next == CheckDest \/ Load \/ Parse \/ ConvertTo \/ Store \/ Report
Spec == Init /\ [][Next]_<<in, stage, val, dst>> /\ WF_<<in, stage, val, dst>>(Next)

\* nothing is stored before everything has succeeded
StoredOnlyWhole == dst # <<>> => stage \in {"stored", "end"} /\ in.to \in Docs /\ ~IsErr(Meaning(in.i))
\* what is stored is in the version of the destination, whatever was declared
RightVersion == dst # <<>> => dst[1].SPDXVersion = VerName(VersionOf[in.to])
\* converting to the declared version changes nothing
SameVersion == stage = "stored" /\ Meaning(in.i).ok.v = VersionOf[in.to] => dst[1] = Meaning(in.i).ok.doc
Terminates == <>(stage = "end")
=============================================================================
