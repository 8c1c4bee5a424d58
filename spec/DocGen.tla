------------------------------- MODULE DocGen -------------------------------
(* Documents, built one element or field at a time, and what the different   *)
(* ways of writing, reading and converting them have to make of them.        *)
(*   Shape = "field":  one of everything, plus each field in each value class *)
(*   Shape = "pair":   one of everything, plus every pair of fields           *)
(*   Shape = "struct": every way of owning up to MaxElems elements            *)
(*   Shape = "walk":   random documents of MaxLen steps                       *)
(*   Shape = "list":   one of everything, with lists of several entries,      *)
(*                     repeated and in various orders                         *)
(*   Shape = "alike":  everything at once, all of it the same word, or each its  *)
(*                     own                                                    *)
(*   Shape = "bulk":   documents with MaxElems elements of every kind         *)
(* Mode says which case is emitted for each document.                        *)
EXTENDS DocModel, Emit
CONSTANTS Vers, Shape, Mode, MaxLen, MaxElems, SameEnt
VARIABLES B, n, steps, note

(* B: v, d, ci, edrs, pkgs, files, fown (0: unpackaged), snips, sown (0: the   *)
(* document, as in JSON), lics, rlns, anns, aown (<<ent, i>>), revs            *)
N == ToString(n)
JsonLike == Mode \in {"json", "yaml"}
TVLike == Mode \in {"tv", "cross", "fa"}

\* ------------------------------------------------------------- value classes
LongLine == IF Shape = "field" THEN "{{LONG}}" ELSE "long enough "
Lines(f) == <<f \o N, "a: b #" \o N, "https://e.org/x?y=" \o N \o "#z", "NOASSERTION", "NONE", "{{U}} " \o N,
              "<b>" \o N \o "</b> & (c)", "\"q\" 'r' \\ " \o N, "#" \o N, "DocumentRef-x:SPDXRef-" \o N, "(excludes: x)" \o N,
              ":" \o N, "x:", "%s 100%d%% %!(NOVERB) %" \o N, "PackageName: evil" \o N, "true", "123", LongLine \o N, "a  b\tc" \o N>>
YamlLines == <<"false", "null", "~", "0x1F", "0o17", "1e3", "1.0", "2010-01-29", "2010-01-29T18:30:22Z", "- " \o N,
               "* " \o N, "&a", "!t", "{x}", "[x]", "|", ">", "%x", "@x", "`x", "y", "no", "on", "NaN", ".inf", "<<", "?",
               "---", "...", "=", "k: v", "'q", "\"q", "-", "1_000", "012", "+1", "1:30", "x #c", "", " lead", "trail ", "\t", " ">>
JsonLines == <<"l1\nl2 " \o N, "{{NUL}}{{CTL}}" \o N, "{{CR}}\n" \o N, "a{{CR}}b", "\n", "{{BOM}}x", "{{NEL}}", "\\u0041\\n"
               , "  \n  ", "{{CR}}">>
\* text that other notations give a meaning to at the start of a line
Marked == "one\n# two\n- three\n? four: x\n---\n...\n> five\n%six\nDocumentName: seven\n\n"
Texts(f) == <<"l1\nl2 " \o N, Marked \o N, "\tone\n#" \o N, "a\t\nb  \n\n\nc" \o N, "l" \o N \o "\nPackageName: evil\n\n# no comment\n  end ", "\n\nx" \o N \o "\n", " lead" \o N, "trail\t" \o N \o " ",
              "a <text> b", "<text>" \o N, "{{U}}\n{{U}}" \o N, "x\n<text>y", "\n", "l1\n  indented\n\ttab\n", LongLine \o "\n" \o LongLine>>
TextVals(f) == IF JsonLike THEN Lines(f) \o Texts(f) \o YamlLines \o JsonLines ELSE Lines(f) \o Texts(f)
LineVals(f) == IF JsonLike THEN Lines(f) \o YamlLines \o JsonLines ELSE Lines(f)
ListVals(f) == IF JsonLike THEN Lines(f) \o YamlLines \o JsonLines ELSE Lines(f)

Actors(name, type, types) ==
  [i \in 1..Len(types) |-> (name :> ("A " \o N \o " (x@y.z)")) @@ (type :> types[i])]
  \o << (name :> ("O: # " \o N)) @@ (type :> "Organization"), (name :> "{{U}} \"q\" \\ <&>") @@ (type :> "Person"),
        (name :> "NOASSERTION, Inc.") @@ (type :> "Organization"), (name :> "a: b: c") @@ (type :> "Person") >>
RefP(k, x, y) == [StartPointer |-> (k :> x), EndPointer |-> (k :> y)]
RefQ(r) == [StartPointer |-> Put(r.StartPointer, "FileSPDXIdentifier", "f" \o N),
            EndPointer |-> Put(r.EndPointer, "FileSPDXIdentifier", "g" \o N)]
RangeVals0 == <<RefP("Offset", n + 1, n + 20), RefP("LineNumber", n + 1, n + 9), RefP("Offset", 1, 1), RefP("LineNumber", 7, 3),
                RefP("Offset", 10, 2147483647)>>
RangeVals == IF JsonLike
  THEN [i \in DOMAIN RangeVals0 |-> RefQ(RangeVals0[i])]
       \o <<RefQ([StartPointer |-> [Offset |-> 3, LineNumber |-> 1], EndPointer |-> [Offset |-> 30, LineNumber |-> 2]]),
            RefQ([StartPointer |-> Nil, EndPointer |-> [Offset |-> 3]])>>
  ELSE IF Mode = "tv" THEN RangeVals0
  ELSE [i \in DOMAIN RangeVals0 |-> RefQ(RangeVals0[i])]
Elem(i) == [ElementRefID |-> i]
ExtElem(d, i) == [DocumentRefID |-> d, ElementRefID |-> i]

\* values of one entry of a field of kind k
Vals(k, g, v) ==
  CASE k = "line" -> LineVals(g)
    [] k = "text" -> TextVals(g)
    [] k = "lines" -> ListVals(g)
    [] k = "texts" -> TextVals(g)
    [] k = "name" -> <<g \o N, "n: # " \o N, "{{U}}\"\\<&>" \o N>>
    [] k = "id" -> <<"id-" \o N, "SPDXRef.x" \o N, "a.b-" \o N, "DOCUMENT" \o N>>
    [] k = "fromfile" -> <<"ff" \o N>>
    [] k = "docelem" -> <<Elem("r" \o N), ExtElem("d" \o N, "r" \o N), Elem("DOCUMENT")>>
    [] k = "creators" -> Actors("Creator", "CreatorType", ActorTypes)
    [] k = "annotator" -> Actors("Annotator", "AnnotatorType", ActorTypes)
    [] k = "supplier" -> <<[Supplier |-> "NOASSERTION"]>> \o Actors("Supplier", "SupplierType", PartyTypes)
    [] k = "originator" -> <<[Originator |-> "NOASSERTION"]>> \o Actors("Originator", "OriginatorType", PartyTypes)
    [] k = "analyzed" -> <<TRUE, FALSE>>
    [] k = "checksums" -> [i \in DOMAIN ChecksumAlgos(v) |-> [Algorithm |-> ChecksumAlgos(v)[i], Value |-> "c0ffee" \o N]]
    [] k = "pvc" -> <<[Value |-> "abc" \o N], [Value |-> "abc" \o N, ExcludedFiles |-> <<"./p.spdx">>],
                      [Value |-> "abc" \o N, ExcludedFiles |-> <<"./p (1).spdx", "./q" \o N, "r">>]>>
    [] k = "extrefs" -> <<[Category |-> "SECURITY", RefType |-> "cpe23Type", Locator |-> "cpe:2.3:a:x:" \o N],
                          [Category |-> "PACKAGE-MANAGER", RefType |-> "purl", Locator |-> "pkg:npm/%40x/y@" \o N \o "?a=b#c"],
                          [Category |-> "OTHER", RefType |-> "http://x.org/#t" \o N, Locator |-> "acme:" \o N,
                           ExternalRefComment |-> "c" \o N],
                          [Category |-> "PERSISTENT-ID", RefType |-> "swh", Locator |-> "swh:1:" \o N,
                           ExternalRefComment |-> "l1\nl2 " \o N]>>
    [] k = "aops" -> <<[Name |-> "p" \o N], [Name |-> "p" \o N, HomePage |-> "http://h" \o N], [Name |-> "p" \o N, URI |-> "http://u" \o N],
                       [Name |-> "p" \o N, HomePage |-> "http://h" \o N, URI |-> "http://u" \o N]>>
    [] k = "ranges" -> RangeVals
    [] k = "reviewer" -> <<"R " \o N>>

RlnTypes == <<"CONTAINS", "DESCRIBES", "DEPENDS_ON", "OTHER", "AMENDS", "DESCRIBED_BY", "contains", "Describes", "x-Custom_of.1">>
RlnRefs(v) == <<Elem("DOCUMENT"), Elem("pk" \o N), ExtElem("d" \o N, "r"), Elem("x.y-z")>>
RlnVals(v) ==
  [i \in 1..4 |-> [RefA |-> RlnRefs(v)[i], RefB |-> RlnRefs(v)[((i + n) % 4) + 1], Relationship |-> RlnTypes[((i + n) % 9) + 1]]]
  \o (IF v = 21 THEN <<>>
      ELSE <<[RefA |-> Elem("e" \o N), RefB |-> [SpecialID |-> "NONE"], Relationship |-> "CONTAINS"],
             [RefA |-> Elem("e" \o N), RefB |-> [SpecialID |-> "NOASSERTION"], Relationship |-> "OTHER"]>>)
EdrVals == <<[DocumentRefID |-> "d" \o N, URI |-> "http://x.org/d?a=b#" \o N, Checksum |-> [Algorithm |-> "SHA1", Value |-> "d6a7" \o N]],
             [DocumentRefID |-> "a.b-" \o N, URI |-> "urn:" \o N, Checksum |-> [Algorithm |-> "SHA256", Value |-> "d6a7" \o N]]>>

\* ------------------------------------------------------------------ building
SetE(ent, v, e, f, x) ==
  IF f.k = "analyzed" THEN Put(Put(e, "FilesAnalyzed", x), "IsFilesAnalyzedTagPresent", TRUE)
  ELSE IF f.k = "reviewer" THEN Put(Put(e, "Reviewer", x), "ReviewerType", "Person")
  ELSE IF f.k \in {"lines", "texts", "creators", "checksums", "extrefs", "aops", "ranges"} THEN AppendTo(e, f.g, x)
  ELSE Put(e, f.g, x)
ListOf == [pkg |-> "pkgs", file |-> "files", snip |-> "snips", lic |-> "lics", rln |-> "rlns", ann |-> "anns", rev |-> "revs"]
Count(ent) == IF ent \in {"doc", "ci"} THEN 1 ELSE Len(B[ListOf[ent]])
ElemAt(ent, i) == IF ent = "doc" THEN B.d ELSE IF ent = "ci" THEN B.ci ELSE B[ListOf[ent]][i]
SetAt(ent, i, f, x) ==
  IF ent = "doc" THEN [B EXCEPT !.d = SetE(ent, B.v, @, f, x)]
  ELSE IF ent = "ci" THEN [B EXCEPT !.ci = SetE(ent, B.v, @, f, x)]
  ELSE [B EXCEPT ![ListOf[ent]] = [@ EXCEPT ![i] = SetE(ent, B.v, @, f, x)]]

Scatter == <<"m", "Z", "b", "0", "z", "A", "k">>   \* identifiers are not created in order
Id(p, q) == Scatter[((n + Len(q)) % 7) + 1] \o p \o N \o (IF Len(q) = 0 THEN "" ELSE "." \o ToString(Len(q)))

NewPkg(b) == [b EXCEPT !.pkgs = Append(@, ("PackageName" :> ("pkg " \o N)) @@ ("PackageSPDXIdentifier" :> Id("pk", b.pkgs)) @@ ("FilesAnalyzed" :> TRUE))]
NewFile(b, o) == [b EXCEPT !.files = Append(@, ("FileName" :> ("./f " \o N)) @@ ("FileSPDXIdentifier" :> Id("fi", b.files))), !.fown = Append(@, o)]
NewSnip(b, o) ==
  [b EXCEPT !.sown = Append(@, o), !.snips = Append(@, ("SnippetSPDXIdentifier" :> Id("sn", b.snips)) @@
     (IF o = 0 THEN "SnippetFromFileSPDXIdentifier" :> Id("fi", b.files) ELSE Nil))]
NewLic(b) == [b EXCEPT !.lics = Append(@, "LicenseIdentifier" :> ("LicenseRef-" \o N))]
NewRln(b, x) == [b EXCEPT !.rlns = Append(@, x)]
NewAnn(b, o, x) == [b EXCEPT !.anns = Append(@, "Annotator" :> x), !.aown = Append(@, o)]
NewRev(b) == [b EXCEPT !.revs = Append(@, ("Reviewer" :> ("R: " \o N)) @@ ("ReviewerType" :> "Tool"))]
NewEdr(b, x) == [b EXCEPT !.edrs = Append(@, x)]

Blank(v) == [v |-> v, d |-> ("SPDXVersion" :> VerName(v)) @@ ("SPDXIdentifier" :> "DOCUMENT"), ci |-> Nil, edrs |-> <<>>,
             pkgs |-> <<>>, files |-> <<>>, fown |-> <<>>, snips |-> <<>>, sown |-> <<>>, lics |-> <<>>, rlns |-> <<>>,
             anns |-> <<>>, aown |-> <<>>, revs |-> <<>>]
Ann0 == [Annotator |-> "Ann", AnnotatorType |-> "Tool"]
\* the kinds of element that make sense in this mode
SnipInFile == ~JsonLike
SnipInDoc == Mode # "tv"
AnnOwners == Mode # "tv"
OneOfEach(v) ==
  LET b1 == NewFile(NewPkg(NewFile(Blank(v), 0)), 1)
      b2 == IF SnipInFile THEN NewSnip(b1, 2) ELSE b1
      b3 == IF SnipInDoc THEN NewSnip(b2, 0) ELSE b2
      b4 == NewRln(NewLic(b3), [RefA |-> Elem("DOCUMENT"), RefB |-> Elem("x"), Relationship |-> "DESCRIBES"])
      b5 == NewAnn(b4, <<"doc", 0>>, Ann0)
      b6 == IF AnnOwners THEN NewAnn(NewAnn(b5, <<"pkg", 1>>, Ann0), <<"file", 2>>, Ann0) ELSE b5
  IN NewRev(b6)

\* ---------------------------------------------------------------- assembling
Idx(q, x) == SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : q[i] = x)
PutSeq(e, k, q) == IF q = <<>> THEN e ELSE Put(e, k, q)
AnnsOf(b, o) == LET is == Idx(b.aown, o) IN [j \in DOMAIN is |-> b.anns[is[j]]]
SnipFun(b, i) == LET is == Idx(b.sown, i)
                 IN [id \in {b.snips[is[j]].SnippetSPDXIdentifier : j \in DOMAIN is} |->
                       b.snips[CHOOSE x \in {is[j] : j \in DOMAIN is} : b.snips[x].SnippetSPDXIdentifier = id]]
FileDoc(b, i) == LET f == PutSeq(b.files[i], "Annotations", AnnsOf(b, <<"file", i>>))
                 IN IF Idx(b.sown, i) = <<>> THEN f ELSE Put(f, "Snippets", SnipFun(b, i))
FilesDoc(b, o) == LET is == Idx(b.fown, o) IN [j \in DOMAIN is |-> FileDoc(b, is[j])]
PkgDoc(b, i) == PutSeq(PutSeq(b.pkgs[i], "Files", FilesDoc(b, i)), "Annotations", AnnsOf(b, <<"pkg", i>>))
SnipsDoc(b) == LET is == Idx(b.sown, 0) IN [j \in DOMAIN is |-> b.snips[is[j]]]
DocOf(b) ==
  LET d0 == b.d
      d1 == IF b.ci = Nil THEN Put(d0, "CreationInfo", Nil) ELSE Put(d0, "CreationInfo", b.ci)
      d2 == PutSeq(d1, "ExternalDocumentReferences", b.edrs)
      d3 == PutSeq(d2, "Packages", [i \in DOMAIN b.pkgs |-> PkgDoc(b, i)])
      d4 == PutSeq(d3, "Files", FilesDoc(b, 0))
      d5 == PutSeq(d4, "OtherLicenses", b.lics)
      d6 == PutSeq(d5, "Relationships", b.rlns)
      d7 == PutSeq(d6, "Annotations", AnnsOf(b, <<"doc", 0>>))
      d8 == PutSeq(d7, "Snippets", SnipsDoc(b))
  IN PutSeq(d8, "Reviews", b.revs)

\* ------------------------------------------------------------------- emission
Reverse_(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Rotate(q) == IF q = <<>> THEN q ELSE Tail(q) \o <<q[1]>>
Shuffle(doc, P(_)) ==
  LET on(e, k) == IF Has(e, k) THEN Put(e, k, P(e[k])) ELSE e
  IN on(on(on(MapList(doc, "Packages", LAMBDA p : on(p, "Files")), "Packages"), "Files"), "ExternalDocumentReferences")
Label(b) == ToString(b.v) \o "/" \o Shape \o "/" \o note'
RECURSIVE FormatChain(_, _, _)
FormatChain(v, doc, fs) ==
  IF fs = <<>> THEN doc
  ELSE FormatChain(v, IF fs[1] = "tv" THEN TVNorm(doc) ELSE JsonNorm(v, doc), Tail(fs))
Formats == {"tv", "json", "yaml"}
Chains == IF Shape = "walk" THEN {<<RandomElement(Formats), RandomElement(Formats), RandomElement(Formats)>>}
          ELSE {<<"json", "tv">>, <<"tv", "yaml">>, <<"yaml", "json", "tv">>, <<"tv", "json", "yaml">>}
Paths(v) == {<<w>> : w \in {21, 22, 23} \ {v}}
            \cup {<<w, v>> : w \in {21, 22, 23} \ {v}}
            \cup {<<x, y>> : x, y \in {21, 22, 23} \ {v}}
RECURSIVE FullPath(_, _)
FullPath(v, ws) == IF ws = <<>> THEN <<>> ELSE Between(v, ws[1]) \o FullPath(ws[1], Tail(ws))
Strip(doc) == MapList(doc, "Packages", LAMBDA p : Without(p, {"IsFilesAnalyzedTagPresent"}))
EmitDoc(b) ==
  LET doc == DocOf(b) IN
  CASE Mode = "tv" -> Emit([k |-> "tvrt", v |-> b.v, label |-> Label(b), doc |-> doc, want |-> TVNorm(doc)])
    [] Mode \in {"json", "yaml"} ->
         Emit([k |-> Mode \o "rt", v |-> b.v, label |-> Label(b), doc |-> doc, tree |-> JsonTree(b.v, doc), want |-> JsonNorm(b.v, doc)])
    [] Mode = "pure" ->
         Emit([k |-> "pure", v |-> b.v, label |-> Label(b), doc |-> doc, ordered |-> TVOrder(doc),
               perms |-> <<Shuffle(doc, Reverse_), Shuffle(doc, Rotate)>>])
    [] Mode = "conv" ->
         \A ws \in Paths(b.v) :
           Emit([k |-> "conv", v |-> b.v, label |-> Label(b) \o ToString(ws), path |-> ws, doc |-> doc,
                 want |-> ConvertAlong(doc, FullPath(b.v, ws))])
    [] Mode = "cross" ->
         \A fs \in Chains :
           Emit([k |-> "cross", v |-> b.v, label |-> Label(b), chain |-> fs, doc |-> doc,
                 want |-> Strip(FormatChain(b.v, doc, fs))])
    [] Mode = "doc" -> Emit([k |-> "doc", v |-> b.v, label |-> Label(b), doc |-> doc])

\* ------------------------------------------------------------- field and pair
Ents == <<"doc", "ci", "pkg", "file", "snip", "lic", "rln", "ann", "rev">>
SetFields(ent, v) == SelectSeq(FieldsOf(ent, v), LAMBDA f :
  /\ f.k \notin {"version", "rln"}
  /\ (f.k = "docelem" => Mode # "json" /\ Mode # "yaml"))
\* the element a field of this kind is set on: the last one, or any
Targets(ent) == IF Shape = "walk" THEN {RandomElement(1..Count(ent))} ELSE 1..Count(ent)
Fresh(f, e) == IF f.k \in {"lines", "texts", "creators", "checksums", "extrefs", "aops", "ranges"} THEN TRUE
               ELSE IF f.k \in {"name", "id", "annotator", "fromfile"} THEN Shape # "walk"
               ELSE IF f.k = "analyzed" THEN ~Has(e, "IsFilesAnalyzedTagPresent")
               ELSE IF f.k = "reviewer" THEN FALSE
               ELSE ~Has(e, f.g)
FieldRank(e, i) == 100 * (CHOOSE x \in DOMAIN Ents : Ents[x] = e) + i


FieldNext ==
  /\ steps < (IF Shape = "field" THEN 1 ELSE 2)
  /\ \E ei \in DOMAIN Ents : LET ent == Ents[ei]
                                 fs == SetFields(ent, B.v)
     IN \E fi \in DOMAIN fs : \E i \in Targets(ent) :
          LET f == fs[fi]
              vals == Vals(f.k, f.g, B.v)
          IN \E vi \in (IF Shape = "field" THEN DOMAIN vals ELSE IF f.k = "analyzed" THEN {1, 2} ELSE {1}) :
               /\ Fresh(f, ElemAt(ent, i))
               /\ steps = 0 \/ (note # "" /\ ent \o "." \o f.g # note /\ (~SameEnt \/ StartsWith(note, ent \o ".")))
               /\ B' = SetAt(ent, i, f, vals[vi]) /\ n' = n + 1 /\ note' = ent \o "." \o f.g /\ steps' = steps + 1
               /\ (Shape = "pair" /\ steps = 0) \/ EmitDoc(B')

\* structured things that are not fields of an element
ExtraNext ==
  /\ steps < 1 /\ Shape = "field"
  /\ \/ \E x \in DOMAIN RlnVals(B.v) : B' = NewRln(B, RlnVals(B.v)[x]) /\ note' = "rln"
     \/ \E x \in DOMAIN EdrVals : B' = NewEdr(B, EdrVals[x]) /\ note' = "edr"
  /\ n' = n + 1 /\ steps' = steps + 1
  /\ EmitDoc(B')

\* --------------------------------------------------------------------- lists
Picks(q) ==
  LET m == Len(q)
      at(is) == [i \in DOMAIN is |-> q[((is[i] - 1) % m) + 1]]
  IN << at(<<1, 1>>), at(<<2, 1, 2>>), at(<<1, 2, 3>>), at(<<3, 2, 1>>), at(<<2, 3, 1, 1, 3>>), q, Reverse_(q), q \o q >>
ListKind == {"lines", "texts", "creators", "checksums", "extrefs", "aops", "ranges"}
Rln(a, t, b) == [RefA |-> Elem(a), RefB |-> Elem(b), Relationship |-> t]
Noted(r, c) == Put(r, "RelationshipComment", c)
RlnLists ==
  << <<Rln("a", "CONTAINS", "b"), Rln("b", "CONTAINED_BY", "a")>>,
     <<Rln("b", "CONTAINED_BY", "a"), Rln("a", "CONTAINS", "b")>>,
     <<Rln("b", "CONTAINED_BY", "a"), Rln("b", "CONTAINED_BY", "a")>>,
     <<Rln("DOCUMENT", "DESCRIBES", "a"), Noted(Rln("a", "DESCRIBED_BY", "DOCUMENT"), "c")>>,
     <<Rln("a", "DESCRIBED_BY", "DOCUMENT"), Rln("DOCUMENT", "DESCRIBES", "a")>>,
     <<Rln("a", "OTHER", "b"), Rln("a", "OTHER", "b")>>,
     <<Noted(Rln("a", "OTHER", "b"), "c"), Noted(Rln("a", "OTHER", "b"), "d"), Rln("a", "OTHER", "b")>>,
     <<Rln("z", "CONTAINS", "y"), Rln("a", "CONTAINS", "y"), Rln("z", "CONTAINS", "b"), Rln("a", "CONTAINS", "a")>>,
     <<Rln("a", "DEPENDS_ON", "b"), Rln("b", "DEPENDS_ON", "a"), Rln("b", "DEPENDENCY_OF", "a")>> >>
ListNext ==
  /\ steps < 1
  /\ \/ \E ei \in DOMAIN Ents :
          LET ent == Ents[ei]
              fs == SelectSeq(SetFields(ent, B.v), LAMBDA f : f.k \in ListKind)
          IN \E fi \in DOMAIN fs : \E i \in 1..Count(ent) :
               LET ps == Picks(Vals(fs[fi].k, fs[fi].g, B.v))
               IN \E pi \in DOMAIN ps :
                    /\ B' = (IF ent = "ci" THEN [B EXCEPT !.ci = Put(@, fs[fi].g, ps[pi])]
                             ELSE [B EXCEPT ![ListOf[ent]] = [@ EXCEPT ![i] = Put(@, fs[fi].g, ps[pi])]])
                    /\ note' = ent \o "." \o fs[fi].g \o " list " \o ToString(pi)
     \/ \E x \in DOMAIN RlnLists : B' = [B EXCEPT !.rlns = @ \o RlnLists[x]] /\ note' = "rln list " \o ToString(x)
     \/ \E i \in DOMAIN B.pkgs : \E q \in {<<"b", "a">>, <<"b", "a", "b">>, <<"a", "a">>} :
          B' = [B EXCEPT !.pkgs = [@ EXCEPT ![i] = Put(@, "PackageVerificationCode", [Value |-> "ab", ExcludedFiles |-> q])]]
          /\ note' = "excluded files"
     \/ \E g \in {"lics", "revs", "anns"} : \E x \in DOMAIN B[g] :
          B' = (IF g = "anns" THEN [B EXCEPT !.anns = Append(@, @[x]), !.aown = Append(@, @[x])] ELSE [B EXCEPT ![g] = Append(@, @[x])])
          /\ note' = g \o " twice"
     \* elements that differ in nothing but their identifier
     \/ \E i \in DOMAIN B.pkgs : B' = [B EXCEPT !.pkgs = Append(@, Put(B.pkgs[i], "PackageSPDXIdentifier", "0twin"))] /\ note' = "twin packages"
     \/ \E i \in DOMAIN B.files : B' = [B EXCEPT !.files = Append(@, Put(B.files[i], "FileSPDXIdentifier", "0twin")), !.fown = Append(@, @[i])] /\ note' = "twin files"
     \/ \E i \in DOMAIN B.snips : B' = [B EXCEPT !.snips = Append(@, Put(B.snips[i], "SnippetSPDXIdentifier", "0twin")), !.sown = Append(@, @[i])] /\ note' = "twin snippets"
  /\ n' = n + 1 /\ steps' = steps + 1
  /\ EmitDoc(B')

\* ------------------------------------------------------------------ structure
Total == Len(B.pkgs) + Len(B.files) + Len(B.snips) + Len(B.lics) + Len(B.rlns) + Len(B.anns) + Len(B.revs) + Len(B.edrs)
AnnOwnersOf(b) == {<<"doc", 0>>} \cup (IF AnnOwners THEN {<<"pkg", i>> : i \in DOMAIN b.pkgs} \cup {<<"file", i>> : i \in DOMAIN b.files} ELSE {})
AddElem ==
  \/ B' = NewPkg(B) /\ note' = "+pkg"
  \/ \E o \in 0..Len(B.pkgs) : B' = NewFile(B, o) /\ note' = "+file"
  \/ \E o \in (IF SnipInDoc THEN {0} ELSE {}) \cup (IF SnipInFile THEN DOMAIN B.files ELSE {}) : B' = NewSnip(B, o) /\ note' = "+snip"
  \/ B' = NewEdr(B, EdrVals[(n % 2) + 1]) /\ note' = "+edr"
  \/ Len(B.rlns) < 2 /\ B' = NewRln(B, RlnVals(B.v)[(n % 4) + 1]) /\ note' = "+rln"
  \/ AnnOwners /\ \E o \in AnnOwnersOf(B) : B' = NewAnn(B, o, Vals("annotator", "", B.v)[1]) /\ note' = "+ann"
StructNext == /\ Total < MaxElems /\ AddElem /\ n' = n + 1 /\ steps' = steps + 1 /\ EmitDoc(B')
\* ids, and so everything else, depend on the order of creation only
StructView == <<B, n>>

\* --------------------------------------------------------------------- random
Some(S) == RandomElement(S)
AddSome ==
  \E r \in {Some(1..16)} :
  /\ note' = "walk"
  /\ CASE r <= 3 -> B' = NewPkg(B)
       [] r \in 4..8 -> \E o \in {Some(0..Len(B.pkgs))} : B' = NewFile(B, o)
       [] r \in 9..11 -> \E o \in {Some((IF SnipInDoc \/ B.files = <<>> THEN {0} ELSE {})
                                        \cup (IF SnipInFile THEN DOMAIN B.files ELSE {}))} :
                          B' = IF o = 0 /\ ~SnipInDoc THEN NewLic(B) ELSE NewSnip(B, o)
       [] r = 12 -> B' = NewLic(B)
       [] r = 13 -> B' = NewRev(B)
       [] r = 14 -> \E x \in {Some(DOMAIN RlnVals(B.v))} : B' = NewRln(B, RlnVals(B.v)[x])
       [] r = 15 -> \E x \in {Some(DOMAIN EdrVals)} : B' = NewEdr(B, EdrVals[x])
       [] r = 16 -> \E o \in {Some(AnnOwnersOf(B))} : \E x \in {Some(DOMAIN Vals("annotator", "", B.v))} :
                          B' = NewAnn(B, o, Vals("annotator", "", B.v)[x])
WalkNext ==
  /\ steps < MaxLen
  /\ \E roll \in {Some(1..100)} : \E ent \in {Ents[Some(DOMAIN Ents)]} :
     IF roll <= 30 \/ Count(ent) = 0 THEN AddSome
     ELSE \E i \in {Some(1..Count(ent))} :
          \E fs \in {SelectSeq(SetFields(ent, B.v), LAMBDA f : Fresh(f, ElemAt(ent, i)))} :
          IF fs = <<>> THEN AddSome
          ELSE \E f \in {fs[Some(DOMAIN fs)]} :
               \E vals \in {Vals(f.k, f.g, B.v)} :
               \E x \in {vals[Some(DOMAIN vals)]} :
                 B' = SetAt(ent, i, f, x) /\ note' = "walk"
  /\ n' = n + 1 /\ steps' = steps + 1
  /\ steps + 1 < MaxLen \/ EmitDoc(B')

\* ---------------------------------------------------------------------- alike
AllWords == <<"same", "NOASSERTION", "NONE", "none", "true", "0", "SPDXRef-DOCUMENT", "DOCUMENT", "2.3", "-", "">>
WordVal(k, w, v) ==
  LET who == IF w = "NOASSERTION" THEN "nobody" ELSE w IN
  CASE k = "creators" -> [Creator |-> who, CreatorType |-> "Person"]
    [] k = "annotator" -> [Annotator |-> who, AnnotatorType |-> "Person"]
    [] k = "supplier" -> IF w = "NOASSERTION" THEN [Supplier |-> w] ELSE [Supplier |-> w, SupplierType |-> "Person"]
    [] k = "originator" -> IF w = "NOASSERTION" THEN [Originator |-> w] ELSE [Originator |-> w, OriginatorType |-> "Person"]
    [] k = "docelem" -> Elem(IF StartsWith(w, "SPDXRef-") THEN "same" ELSE w)
    [] k = "fromfile" -> IF StartsWith(w, "SPDXRef-") THEN "same" ELSE w
    [] k = "checksums" -> [Algorithm |-> "SHA1", Value |-> w]
    [] k = "pvc" -> [Value |-> w, ExcludedFiles |-> <<w>>]
    [] k = "extrefs" -> [Category |-> "OTHER", RefType |-> w, Locator |-> w, ExternalRefComment |-> w]
    [] k = "aops" -> [Name |-> w, HomePage |-> w, URI |-> w]
    [] k = "ranges" -> RangeVals[3]
    [] k = "analyzed" -> TRUE
    [] k = "reviewer" -> who
    [] OTHER -> w
\* the i-th element of a kind, with every field set to the word
SetAll(ent, v, w, i, e) ==
  FoldLeft(LAMBDA acc, f : SetE(ent, v, acc, f, WordVal(f.k, IF w = "" THEN f.g \o ToString(i) ELSE w, v)), e,
           SelectSeq(SetFields(ent, v), LAMBDA f : f.k # "id"))
SetEach(ent, b, w) == [i \in DOMAIN b[ListOf[ent]] |-> SetAll(ent, b.v, w, i, b[ListOf[ent]][i])]
Same(b, w) ==
  [b EXCEPT !.d = SetAll("doc", b.v, w, 1, @), !.ci = SetAll("ci", b.v, w, 1, @), !.pkgs = SetEach("pkg", b, w), !.files = SetEach("file", b, w),
            !.snips = SetEach("snip", b, w), !.lics = SetEach("lic", b, w), !.rlns = SetEach("rln", b, w), !.anns = SetEach("ann", b, w), !.revs = SetEach("rev", b, w)]
AllAnalysed(b, a) == [b EXCEPT !.pkgs = [i \in DOMAIN @ |-> Put(@[i], "FilesAnalyzed", a)]]
AlikeNext == /\ steps < 1 /\ n' = n + 1 /\ steps' = 1
             /\ \E x \in DOMAIN AllWords, a \in BOOLEAN :
                  /\ B' = AllAnalysed(Same(B, AllWords[x]), a)
                  /\ note' = "alike " \o AllWords[x] \o (IF a THEN "" ELSE " unanalysed")
             /\ EmitDoc(B')

\* ----------------------------------------------------------------------- bulk
\* M of everything, the identifiers not in the order of their elements
Bulk(v, M) ==
  LET K == 1..M
      Nr(i) == ToString(((i * 7) % M) + 1)
      owned == [i \in K |-> i % 3]     \* 0: outside the packages
      line(i) == "line " \o ToString(i)
  IN [Blank(v) EXCEPT
       !.d = Put(@, "DocumentName", "bulk"),
       !.ci = [Creators |-> [i \in K |-> [Creator |-> "A " \o Nr(i), CreatorType |-> ActorTypes[(i % Len(ActorTypes)) + 1]]]],
       !.edrs = [i \in K |-> [DocumentRefID |-> "d" \o Nr(i), URI |-> "urn:" \o ToString(i), Checksum |-> [Algorithm |-> "SHA1", Value |-> "d6a7" \o ToString(i)]]],
       !.pkgs = [i \in K |-> ("PackageName" :> ("pkg " \o ToString(i))) @@ ("PackageSPDXIdentifier" :> ("p" \o Nr(i))) @@ ("FilesAnalyzed" :> TRUE)
                   @@ (IF i = 2 THEN ("PackageLicenseInfoFromFiles" :> [j \in K |-> line(j)])
                                     @@ ("PackageVerificationCode" :> [Value |-> "ab", ExcludedFiles |-> IF v = 21 THEN <<"./x">> ELSE [j \in K |-> "./x" \o Nr(j)]])
                                     @@ (IF v = 23 THEN "PackageAttributionTexts" :> [j \in K |-> "text\n" \o line(j)] ELSE Nil) ELSE Nil)],
       !.files = [i \in K |-> ("FileName" :> ("./f " \o ToString(i))) @@ ("FileSPDXIdentifier" :> ("f" \o Nr(i)))
                   @@ (IF i = 3 THEN ("LicenseInfoInFiles" :> [j \in K |-> line(j)]) @@ ("FileContributors" :> [j \in K |-> line(j)]) ELSE Nil)],
       !.fown = owned,
       !.snips = [i \in K |-> ("SnippetSPDXIdentifier" :> ("s" \o Nr(i))) @@ (IF SnipInFile /\ i % 2 = 0 THEN Nil ELSE "SnippetFromFileSPDXIdentifier" :> ("f" \o Nr(i)))],
       !.sown = [i \in K |-> IF SnipInFile /\ (i % 2 = 0 \/ ~SnipInDoc) THEN (IF i % 4 = 0 THEN 3 ELSE i) ELSE 0],
       !.lics = [i \in K |-> ("LicenseIdentifier" :> ("LicenseRef-" \o Nr(i))) @@ (IF i = 1 THEN "LicenseCrossReferences" :> [j \in K |-> "urn:" \o Nr(j)] ELSE Nil)],
       !.rlns = [i \in K |-> [RefA |-> Elem("p" \o Nr(i)), RefB |-> Elem("f" \o ToString(i)), Relationship |-> RlnTypes[(i % Len(RlnTypes)) + 1]]],
       !.anns = [i \in K |-> [Annotator |-> [Annotator |-> "A" \o Nr(i), AnnotatorType |-> "Tool"], AnnotationComment |-> "c\n" \o ToString(i)]],
       !.aown = [i \in K |-> IF ~AnnOwners \/ i % 3 = 0 THEN <<"doc", 0>> ELSE <<IF i % 3 = 1 THEN "pkg" ELSE "file", IF i % 2 = 0 THEN 2 ELSE i>>],
       !.revs = [i \in K |-> [Reviewer |-> "R" \o Nr(i), ReviewerType |-> "Person"]]]
BulkNext == steps < 1 /\ B' = Bulk(B.v, MaxElems) /\ n' = n + 1 /\ steps' = 1 /\ note' = "bulk" /\ EmitDoc(B')

Init == \E v \in Vers :
  /\ n = 1 /\ steps = 0 /\ note = ""
  /\ B = IF Shape \in {"field", "pair", "list", "alike"} THEN OneOfEach(v) ELSE Blank(v)
Next == CASE Shape \in {"field", "pair"} -> (FieldNext \/ ExtraNext)
          [] Shape = "list" -> ListNext
          [] Shape = "struct" -> StructNext
          [] Shape = "walk" -> WalkNext
          [] Shape = "bulk" -> BulkNext
          [] Shape = "alike" -> AlikeNext
Spec == Init /\ [][Next]_<<B, n, steps, note>>

\* ------------------------------------------------ design facts about documents
TheDoc == DocOf(B)
TVIdempotent == TVNorm(TVNorm(TheDoc)) = TVNorm(TheDoc)
JsonIdempotent == JsonNorm(B.v, JsonNorm(B.v, TheDoc)) = JsonNorm(B.v, TheDoc)
UpDown == /\ B.v <= 22 => Convert(B.v, Convert(B.v + 1, TheDoc)) = TheDoc
          /\ B.v = 21 => ConvertAlong(TheDoc, <<22, 23, 22, 21>>) = TheDoc
ConvertCommutes ==   \* what TV keeps does not depend on when one converts
  \A w \in Versions : TVNorm(Convert(w, TheDoc)) = Convert(w, TVNorm(TheDoc))
OrderIrrelevant == TVOrder(Shuffle(TheDoc, Reverse_)) = TVOrder(TheDoc)
=============================================================================
