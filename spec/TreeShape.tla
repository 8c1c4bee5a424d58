----------------------------- MODULE TreeShape -----------------------------
(* JSON and YAML documents whose tree is not what the format asks for. A     *)
(* machine starts with the tree of a document with one of every field and    *)
(* spoils it, one place at a time: a key is taken out or null, a value is of *)
(* another type, an identifier, a reference or an actor is malformed, a key  *)
(* nobody knows is there. verdict says what reading has to make of it:       *)
(*   "doc":    the document doc                                              *)
(*   "reject": an error                                                      *)
(*   "either": an error or a document, but the same from JSON as from YAML   *)
EXTENDS FullDoc, Emit
CONSTANTS Vers, MaxSteps, SIM
VARIABLES v, doc, tree, clean, verdict, steps, note
vars == <<v, doc, tree, clean, verdict, steps, note>>

(* --- its places: where in the tree, where in the document, what kind ---------- *)
Place(t, g, k) == {[t |-> t, g |-> g, k |-> k]}
Keys(e, t, g, rows) == UNION {Place(Append(t, rows[i][1]), Append(g, rows[i][2]), rows[i][3]) : i \in {j \in DOMAIN rows : Has(e, rows[j][2])}}
Each(t, g, q, Op(_, _, _)) == UNION {Op(q[i], Append(t, i), Append(g, i)) : i \in DOMAIN q}
Strings(t, g, q) == Place(t, g, "list") \cup Each(t, g, q, LAMBDA x, a, b : Place(a, b, "entry"))
ChecksumAt(c, t, g) == Place(t, g, "obj") \cup Keys(c, t, g, <<<<"algorithm", "Algorithm", "str">>, <<"checksumValue", "Value", "str">>>>)
PtrAt(t, g, p) == Place(t, g, "obj")
  \cup (IF Has(p, "Offset") THEN Place(Append(t, "offset"), Append(g, "Offset"), "num") ELSE {})
  \cup (IF Has(p, "LineNumber") THEN Place(Append(t, "lineNumber"), Append(g, "LineNumber"), "num") ELSE {})
  \cup (IF Has(p, "FileSPDXIdentifier") THEN Place(Append(t, "reference"), Append(g, "FileSPDXIdentifier"), "id") ELSE {})
ValAt(k, x, t, g) ==
  CASE k \in {"line", "text", "name"} -> Place(t, g, "str")
    [] k \in {"lines", "texts"} -> Strings(t, g, x)
    [] k \in {"id", "fromfile"} -> Place(t, g, "id")
    [] k = "creators" -> Place(t, g, "list") \cup Each(t, g, x, LAMBDA y, a, b : Place(a, b, "actor"))
    [] k = "annotator" -> Place(t, g, "actor")
    [] k \in {"supplier", "originator"} -> Place(t, g, "party")
    [] k = "analyzed" -> Place(t, g, "analyzed")
    [] k = "checksums" -> Place(t, g, "list") \cup Each(t, g, x, ChecksumAt)
    [] k = "pvc" -> Place(t, g, "obj") \cup Keys(x, t, g, <<<<"packageVerificationCodeValue", "Value", "str">>>>)
                    \cup (IF Has(x, "ExcludedFiles") THEN Strings(Append(t, "packageVerificationCodeExcludedFiles"), Append(g, "ExcludedFiles"), x.ExcludedFiles) ELSE {})
    [] k = "extrefs" -> Place(t, g, "list") \cup Each(t, g, x, LAMBDA y, a, b : Place(a, b, "elem")
                          \cup Keys(y, a, b, <<<<"referenceCategory", "Category", "str">>, <<"referenceType", "RefType", "str">>,
                                            <<"referenceLocator", "Locator", "str">>, <<"comment", "ExternalRefComment", "str">>>>))
    [] k = "aops" -> Place(t, g, "list") \cup Each(t, g, x, LAMBDA y, a, b : Place(a, b, "elem")
                          \cup Keys(y, a, b, <<<<"name", "Name", "str">>, <<"homePage", "HomePage", "str">>, <<"URI", "URI", "str">>>>))
    [] k = "ranges" -> Place(t, g, "list") \cup UNION {Place(Append(t, i), Append(g, i), "obj")
                          \cup (IF Has(x[i], "StartPointer") THEN PtrAt(t \o <<i, "startPointer">>, g \o <<i, "StartPointer">>, x[i].StartPointer) ELSE {})
                          \cup (IF Has(x[i], "EndPointer") THEN PtrAt(t \o <<i, "endPointer">>, g \o <<i, "EndPointer">>, x[i].EndPointer) ELSE {}) : i \in DOMAIN x}
EntAt(ent, e, t, g) == LET fs == FieldsOf(ent, v)
  IN UNION {ValAt(fs[i].k, e[fs[i].g], Append(t, fs[i].j), Append(g, fs[i].g)) : i \in {j \in Listed(ent, v) : Has(e, fs[j].g)}}
ListAt(e, gk, t, g, kind, Op(_, _, _)) ==
  IF ~Has(e, gk) THEN {} ELSE Place(t, Append(g, gk), "list")
       \cup UNION {Place(Append(t, i), g \o <<gk, i>>, kind) \cup Op(e[gk][i], Append(t, i), g \o <<gk, i>>) : i \in DOMAIN e[gk]}
AnnsAt(e, t, g, kind) == ListAt(e, "Annotations", Append(t, "annotations"), g, kind, LAMBDA x, a, b : EntAt("ann", x, a, b))
FileAt(x, a, b) == EntAt("file", x, a, b) \cup AnnsAt(x, a, b, "obj")
PkgAt(x, a, b) == EntAt("pkg", x, a, b) \cup AnnsAt(x, a, b, "obj") \cup ListAt(x, "Files", Append(a, "files"), b, "elem", FileAt)
Places(d) ==
  EntAt("doc", d, <<>>, <<>>)
  \cup (IF Has(d, "CreationInfo") /\ d.CreationInfo # Nil THEN Place(<<"creationInfo">>, <<"CreationInfo">>, "creation") \cup EntAt("ci", d.CreationInfo, <<"creationInfo">>, <<"CreationInfo">>) ELSE {})
  \cup ListAt(d, "ExternalDocumentReferences", <<"externalDocumentRefs">>, <<>>, "obj", LAMBDA x, a, b :
         Keys(x, a, b, <<<<"externalDocumentId", "DocumentRefID", "docid">>, <<"spdxDocument", "URI", "str">>>>)
         \cup ChecksumAt(x.Checksum, Append(a, "checksum"), Append(b, "Checksum")))
  \cup ListAt(d, "Packages", <<"packages">>, <<>>, "elem", PkgAt)
  \cup ListAt(d, "Files", <<"files">>, <<>>, "elem", FileAt)
  \cup ListAt(d, "OtherLicenses", <<"hasExtractedLicensingInfos">>, <<>>, "elem", LAMBDA x, a, b : EntAt("lic", x, a, b))
  \cup ListAt(d, "Relationships", <<"relationships">>, <<>>, "elem", LAMBDA x, a, b :
         Keys(x, a, b, <<<<"spdxElementId", "RefA", "ref">>, <<"relatedSpdxElement", "RefB", "ref">>,
                      <<"relationshipType", "Relationship", "str">>, <<"comment", "RelationshipComment", "str">>>>))
  \cup AnnsAt(d, <<>>, <<>>, "elem")
  \cup ListAt(d, "Snippets", <<"snippets">>, <<>>, "obj", LAMBDA x, a, b : EntAt("snip", x, a, b))

(* --- taking out and putting in --------------------------------------------------- *)
RECURSIVE There(_, _)
There(t, p) == p = <<>> \/ (p[1] \in DOMAIN t /\ There(t[p[1]], Tail(p)))
RECURSIVE PutAt(_, _, _)
PutAt(t, p, x) == IF Len(p) = 0 THEN x
                  ELSE IF p[1] \in DOMAIN t THEN [t EXCEPT ![p[1]] = PutAt(@, Tail(p), x)]
                  ELSE Put(t, p[1], x)
RECURSIVE DelAt(_, _)
DelAt(t, p) == IF ~There(t, p) THEN t
               ELSE IF Len(p) > 1 THEN [t EXCEPT ![p[1]] = DelAt(@, Tail(p))]
               ELSE Without(t, {p[1]})
\* a list without entries is not there
RECURSIVE DelEntry(_, _)
DelEntry(t, p) == IF Len(p) > 2 THEN [t EXCEPT ![p[1]] = DelEntry(@, Tail(p))]
                  ELSE IF Len(t[p[1]]) = 1 THEN Without(t, {p[1]})
                  ELSE [t EXCEPT ![p[1]] = RemoveAt(@, p[2])]
Front1(p) == SubSeq(p, 1, Len(p) - 1)
IsIndex(x) == ToString(x) \in {"1", "2", "3"}
IsEntry(s) == s.t # <<>> /\ IsIndex(s.t[Len(s.t)])

(* --- what is put in the place of a value of each kind --------------------------------- *)
Null == "{{NULL}}"
Number == 7
Fraction == "{{1.5}}"
Huge == "{{1e40}}"
Wrong(k) ==
  CASE k \in {"str", "entry"} -> <<Number, Fraction, TRUE, <<>>, <<"x">>, [x |-> 1]>>
    [] k = "id" -> <<Number, TRUE, <<>>, <<"SPDXRef-x">>, [x |-> 1], "", "x", "SPDXRef-", "spdxref-x", " SPDXRef-x", "DocumentRef-x", Null>>
    [] k = "docid" -> <<Number, TRUE, <<>>, [x |-> 1], "", "x", "DocumentRef-", "SPDXRef-x", " DocumentRef-x", Null>>
    [] k = "ref" -> <<Number, TRUE, <<>>, <<"SPDXRef-x">>, [x |-> 1], "", "x", "SPDXRef-", "DocumentRef-:SPDXRef-x", "DocumentRef-d:x", "DocumentRef-d:SPDXRef-", "none", Null>>
    [] k = "actor" -> <<Number, TRUE, <<>>, <<"Tool: x">>, [x |-> 1], "", "Tool", "NOASSERTION", Null>>
    [] k = "party" -> <<Number, TRUE, <<>>, <<"Person: x">>, [x |-> 1], "", "Person", "noassertion", "NONE">>
    [] k = "num" -> <<"7", "", Fraction, Huge, TRUE, <<>>, <<7>>, [x |-> 1]>>
    [] k = "analyzed" -> <<"true", "", 0, 1, <<>>, <<TRUE>>, [x |-> 1]>>
    [] k \in {"obj", "elem", "creation"} -> <<"", "x", Number, TRUE, <<>>, <<[x |-> 1]>>>>
    [] k = "list" -> <<"", "x", Number, TRUE, [x |-> 1]>>
\* values a place may also have, and what is read for them
Good(k) ==
  CASE k = "str" -> <<[t |-> "other", g |-> "other"], [t |-> "", g |-> ""], [t |-> "true", g |-> "true"], [t |-> "7", g |-> "7"]>>
    [] k = "id" -> <<[t |-> "SPDXRef-a.b-1", g |-> "a.b-1"]>>
    [] k = "docid" -> <<[t |-> "DocumentRef-a.b-1", g |-> "a.b-1"]>>
    [] k = "ref" -> <<[t |-> "NONE", g |-> [SpecialID |-> "NONE"]], [t |-> "NOASSERTION", g |-> [SpecialID |-> "NOASSERTION"]],
                      [t |-> "DocumentRef-d:SPDXRef-x", g |-> [DocumentRefID |-> "d", ElementRefID |-> "x"]]>>
    [] k = "num" -> <<[t |-> 0, g |-> 0], [t |-> 2147483647, g |-> 2147483647]>>
    [] OTHER -> <<>>
\* null where it is as if there was nothing
Nullable(k) == k \in {"str", "party", "num", "analyzed", "obj", "creation", "list"}
\* places a document of the model always has
Needed(s) == Len(s.t) = 3 /\ s.t[1] \in {"externalDocumentRefs", "relationships"} /\ s.g[3] # "RelationshipComment"

(* --- the machine ------------------------------------------------------------------------- *)
RECURSIVE Called(_, _)
Called(s, i) == IF i > Len(s.t) THEN "" ELSE (IF IsIndex(s.t[i]) THEN "[]" ELSE "/" \o s.t[i]) \o Called(s, i + 1)
Worse(x) == IF verdict = "reject" THEN "reject" ELSE IF verdict = "either" THEN "either" ELSE x
Step(how, s, d, t, c, verd) ==
  /\ doc' = d /\ tree' = t /\ clean' = c /\ verdict' = verd /\ steps' = steps + 1 /\ UNCHANGED v
  /\ note' = how \o " " \o s.k \o Called(s, 1)
Drop(t, s) == IF IsEntry(s) THEN DelEntry(t, s.t) ELSE DelAt(t, s.t)
Gone(s) ==
  CASE s.k = "analyzed" -> PutAt(doc, s.g, v # 21)
    [] s.k = "creation" -> PutAt(doc, s.g, Nil)
    [] IsEntry(s) -> DelEntry(doc, s.g)
    [] OTHER -> DelAt(doc, s.g)
CleanGone(s) == IF s.k = "analyzed" THEN PutAt(clean, s.t, v # 21) ELSE Drop(clean, s)
Spoil(s, x) == Step("wrong " \o ToString(x), s, doc, PutAt(tree, s.t, x), clean, Worse("reject"))
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t[p[1]], Tail(p))
\* nothing is left with no field at all
Sole(s) == ~IsEntry(s) /\ Cardinality(DOMAIN At(doc, Front1(s.g))) = 1
TakeOut(s) == ~Needed(s) /\ ~Sole(s) /\ Step("no", s, Gone(s), Drop(tree, s), CleanGone(s), verdict)
MakeNull(s) == ~Needed(s) /\ ~Sole(s) /\ Nullable(s.k) /\ ~IsEntry(s) /\ Step("null", s, Gone(s), PutAt(tree, s.t, Null), CleanGone(s), verdict)
\* a list with nothing where an entry should be
NullEntry(s) == s.k \in {"elem", "entry", "obj"} /\ IsEntry(s) /\ Step("null", s, doc, PutAt(tree, s.t, Null), clean, Worse("either"))
Change(s, x) == Step("other", s, PutAt(doc, s.g, x.g), PutAt(tree, s.t, x.t), PutAt(clean, s.t, x.t), verdict)
\* keys the format does not know, in any object
Strange == <<<<"x-unknown", "y">>, <<"x-unknown", Null>>, <<"x-unknown", <<1, Null, [SPDXID |-> 3]>>>>, <<"", "y">>, <<"name2", 7>>,
             <<"$schema", "http://x">>, <<"reviewers", <<>>>>, <<"relationshipTypes", [x |-> Null]>>>>
Unknown(s, kv) == s.k \in {"obj", "elem", "creation"}
  /\ Step("unknown " \o kv[1], s, doc, PutAt(tree, Append(s.t, kv[1]), kv[2]), clean, verdict)
Top == [t |-> <<>>, g |-> <<>>, k |-> "elem"]
\* the deprecated lists, ill-formed: a 2.1 document does not have them
IllList == <<"", "SPDXRef-x", 7, TRUE, [x |-> 1], <<7>>, <<"x">>, <<"">>, <<Null>>, <<"SPDXRef-x", <<>>>>, <<[x |-> 1]>>>>
Short(s, key) ==
  IF v = 21 THEN Unknown(s, <<key, "x">>)
  ELSE \E i \in DOMAIN IllList : Step("wrong " \o ToString(IllList[i]), [s EXCEPT !.t = Append(@, key), !.k = "short"], doc,
                                      PutAt(tree, Append(s.t, key), IllList[i]), clean, Worse("reject"))

Live == {s \in Places(doc) : There(tree, s.t)}
Mild(s) == \/ TakeOut(s) \/ MakeNull(s)
           \/ \E i \in DOMAIN Good(s.k) : Change(s, Good(s.k)[i])
           \/ \E i \in DOMAIN Strange : Unknown(s, Strange[i])
Harsh(s) == \/ \E i \in DOMAIN Wrong(s.k) : Spoil(s, Wrong(s.k)[i])
            \/ NullEntry(s)
            \/ Len(s.t) = 2 /\ s.t[1] = "packages" /\ Short(s, "hasFiles")
Report == Emit([k |-> "treeshape", v |-> v', label |-> ToString(v') \o " " \o note', tree |-> tree', verdict |-> verdict',
                want |-> IF verdict' = "doc" THEN doc' ELSE Nil])
Init == /\ v \in Vers /\ doc = FullDoc(v) /\ tree = JsonTree(v, doc) /\ clean = tree /\ verdict = "doc" /\ steps = 0 /\ note = ""
Next ==
  /\ verdict = "doc" /\ steps < MaxSteps
  /\ \/ \E s \in IF SIM THEN {RandomElement(Live)} ELSE Live : (Mild(s) \/ Harsh(s)) /\ Report
     \/ (\E i \in DOMAIN Strange : Unknown(Top, Strange[i])) /\ ~SIM /\ Report
     \/ ~SIM /\ Short(Top, "documentDescribes") /\ Report
Spec == Init /\ [][Next]_vars

(* --- what holds of it ------------------------------------------------------------------------ *)
TypeOK == verdict \in {"doc", "reject", "either"} /\ steps \in 0..MaxSteps
\* what is not null or unknown is the tree of the document the verdict names
Faithful == verdict = "doc" => clean = JsonTree(v, doc)
\* once it is to be rejected nothing mends it
NeverMended == [][verdict = "reject" => verdict' = "reject"]_vars
=============================================================================
