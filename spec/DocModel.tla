------------------------------ MODULE DocModel ------------------------------
(* Whole documents as values, and what each format and each version keeps of *)
(* them: TVNorm (tag-value), JsonNorm (JSON and YAML), Convert (versions),   *)
(* and JsonTree, the tree of keys and values a document is written as.       *)
EXTENDS SpdxModel

MapList(e, k, Op(_)) == IF Has(e, k) THEN Put(e, k, [i \in DOMAIN e[k] |-> Op(e[k][i])]) ELSE e
MapVals(e, k, Op(_)) == IF Has(e, k) THEN Put(e, k, [i \in DOMAIN e[k] |-> Op(e[k][i])]) ELSE e
MapOne(e, k, Op(_)) == IF Has(e, k) THEN Put(e, k, Op(e[k])) ELSE e

\* a stable merge sort
MergeBy(p, q, key) ==
  LET posP == TLCEval([i \in DOMAIN p |-> i + Cardinality({j \in DOMAIN q : StrLess(q[j][key], p[i][key])})])
      At == {posP[i] : i \in DOMAIN p}
  IN TLCEval([n \in 1..(Len(p) + Len(q)) |->
        LET nP == Cardinality({i \in DOMAIN p : posP[i] <= n}) IN IF n \in At THEN p[nP] ELSE q[n - nP]])
RECURSIVE SortBy(_, _)
SortBy(q, key) == IF Len(q) <= 1 THEN q
                  ELSE LET h == Len(q) \div 2 IN MergeBy(SortBy(SubSeq(q, 1, h), key), SortBy(SubSeq(q, h + 1, Len(q)), key), key)
SortIn(e, k, key) == IF Has(e, k) THEN Put(e, k, SortBy(e[k], key)) ELSE e

(* --- the order in which tag-value lists things --------------------------- *)
TVOrderPkg(p) == SortIn(p, "Files", "FileSPDXIdentifier")
TVOrder(doc) ==
  SortIn(SortIn(SortIn(MapList(doc, "Packages", TVOrderPkg), "Packages", "PackageSPDXIdentifier"),
                "Files", "FileSPDXIdentifier"),
         "ExternalDocumentReferences", "DocumentRefID")

(* --- what tag-value carries ----------------------------------------------- *)
\* a range is one byte range and / or one line range, without a reference
RangeParts(r) ==
  LET part(k) == [StartPointer |-> (k :> r.StartPointer[k]), EndPointer |-> (k :> r.EndPointer[k])]
      has(k) == Get(r.StartPointer, k, 0) > 0 /\ Get(r.EndPointer, k, 0) > 0
  IN (IF has("Offset") THEN <<part("Offset")>> ELSE <<>>)
     \o (IF has("LineNumber") THEN <<part("LineNumber")>> ELSE <<>>)
RECURSIVE AllParts(_)
AllParts(rs) == IF rs = <<>> THEN <<>> ELSE RangeParts(rs[1]) \o AllParts(Tail(rs))
TVSnip(s) == IF Has(s, "Ranges") THEN Put(s, "Ranges", AllParts(s.Ranges)) ELSE s
TVFile(f) == MapVals(Without(f, {"Annotations"}), "Snippets", TVSnip)
TVPkg(p) ==
  LET q == MapList(Without(p, {"Annotations"}), "Files", TVFile)
  IN IF Get(p, "FilesAnalyzed", FALSE) THEN q
     ELSE Put(Without(q, {"PackageVerificationCode", "PackageLicenseInfoFromFiles"}),
              "IsFilesAnalyzedTagPresent", TRUE)
TVNorm(doc) == TVOrder(MapList(MapList(Without(doc, {"Snippets"}), "Packages", TVPkg), "Files", TVFile))

(* --- what JSON and YAML carry ----------------------------------------------- *)
KeptIn(ent, v) == {FieldsOf(ent, v)[i].g : i \in {j \in DOMAIN FieldsOf(ent, v) : FieldsOf(ent, v)[j].jv <= v}}
DropJson(ent, v, e) == Without(e, {Fields(ent)[i].g : i \in {j \in DOMAIN Fields(ent) : Fields(ent)[j].jv > v}})
Dashes(s) == JoinWith(SplitAll(s, "_"), "-")
Underscores(s) == JoinWith(SplitAll(s, "-"), "_")
JsonCategory(v, s) == IF v = 21 THEN s ELSE Dashes(s)
JsonExtRef(v, r) == MapOne(r, "Category", LAMBDA c : JsonCategory(v, c))
JsonAnn(v, a) == DropJson("ann", v, a)
JsonAnns(v, e) == MapList(e, "Annotations", LAMBDA a : JsonAnn(v, a))
JsonFile(v, f) == JsonAnns(v, Without(DropJson("file", v, f), {"Snippets"}))
JsonSnip(v, s) == DropJson("snip", v, s)
JsonPkg(v, p) ==
  MapList(MapList(JsonAnns(v, Without(p, {"IsFilesAnalyzedTagPresent"})), "Files", LAMBDA f : JsonFile(v, f)),
          "PackageExternalReferences", LAMBDA r : JsonExtRef(v, r))
JsonNorm(v, doc) ==
  LET d1 == JsonAnns(v, Without(doc, {"Reviews"}))
      d2 == MapList(d1, "Packages", LAMBDA p : JsonPkg(v, p))
      d3 == MapList(d2, "Files", LAMBDA f : JsonFile(v, f))
  IN MapList(d3, "Snippets", LAMBDA s : JsonSnip(v, s))

(* --- the JSON tree -------------------------------------------------------- *)
IdText(x) == IF StartsWith(x, "SPDXRef-") THEN x ELSE "SPDXRef-" \o x
RefText(r) ==
  IF Has(r, "SpecialID") THEN r.SpecialID
  ELSE (IF Has(r, "DocumentRefID") THEN "DocumentRef-" \o r.DocumentRefID \o ":" ELSE "") \o IdText(r.ElementRefID)
PartyText(x, name, type) == IF Has(x, type) THEN x[type] \o ": " \o x[name] ELSE x[name]
Rename(e, names) ==     \* names: function from Go field to key
  [k \in {names[g] : g \in DOMAIN e} |-> e[CHOOSE g \in DOMAIN e : names[g] = k]]
ChecksumTree(c) == Rename(c, [Algorithm |-> "algorithm", Value |-> "checksumValue"])
PtrTree(p) == Rename(MapOne(p, "FileSPDXIdentifier", IdText),
                     [Offset |-> "offset", LineNumber |-> "lineNumber", FileSPDXIdentifier |-> "reference"])
RangeTree(r) == Rename(MapOne(MapOne(r, "StartPointer", PtrTree), "EndPointer", PtrTree),
                       [StartPointer |-> "startPointer", EndPointer |-> "endPointer"])
MapSeq(q, Op(_)) == [i \in DOMAIN q |-> Op(q[i])]

ValTree(v, k, x) ==
  CASE k \in {"version", "line", "text", "name", "lines", "texts", "analyzed"} -> x
    [] k \in {"id", "fromfile"} -> IdText(x)
    [] k = "creators" -> MapSeq(x, LAMBDA a : PartyText(a, "Creator", "CreatorType"))
    [] k = "annotator" -> PartyText(x, "Annotator", "AnnotatorType")
    [] k = "supplier" -> PartyText(x, "Supplier", "SupplierType")
    [] k = "originator" -> PartyText(x, "Originator", "OriginatorType")
    [] k = "checksums" -> MapSeq(x, ChecksumTree)
    [] k = "pvc" -> Rename(x, [Value |-> "packageVerificationCodeValue",
                               ExcludedFiles |-> "packageVerificationCodeExcludedFiles"])
    [] k = "extrefs" -> MapSeq(x, LAMBDA r : Rename(MapOne(r, "Category", LAMBDA c : IF v = 22 THEN Underscores(c) ELSE c),
                          [Category |-> "referenceCategory", RefType |-> "referenceType",
                           Locator |-> "referenceLocator", ExternalRefComment |-> "comment"]))
    [] k = "aops" -> MapSeq(x, LAMBDA r : Rename(r, [Name |-> "name", HomePage |-> "homePage", URI |-> "URI"]))
    [] k = "ranges" -> MapSeq(x, RangeTree)

\* the simple and structured fields of one element, under their keys
EntTree(v, ent, e) ==
  LET fs == FieldsOf(ent, v)
      is == {i \in DOMAIN fs : fs[i].jv <= v /\ fs[i].k # "rln" /\ Has(e, fs[i].g)}
  IN [key \in {fs[i].j : i \in is} |->
        LET f == fs[CHOOSE i \in is : fs[i].j = key] IN ValTree(v, f.k, e[f.g])]
Sub(t, key, e, g, Op(_)) == IF Has(e, g) /\ e[g] # <<>> THEN Put(t, key, MapSeq(e[g], Op)) ELSE t
AnnTree(v, a) == EntTree(v, "ann", a)
FileTree(v, f) == Sub(EntTree(v, "file", f), "annotations", f, "Annotations", LAMBDA a : AnnTree(v, a))
PkgTree(v, p) ==
  LET t == EntTree(v, "pkg", p)
      u == Sub(t, "files", p, "Files", LAMBDA f : FileTree(v, f))
  IN Sub(u, "annotations", p, "Annotations", LAMBDA a : AnnTree(v, a))
RlnTree(v, r) ==
  LET t == [spdxElementId |-> RefText(r.RefA), relatedSpdxElement |-> RefText(r.RefB),
            relationshipType |-> r.Relationship]
  IN IF Has(r, "RelationshipComment") THEN Put(t, "comment", r.RelationshipComment) ELSE t
EdrTree(r) == [externalDocumentId |-> "DocumentRef-" \o r.DocumentRefID, spdxDocument |-> r.URI,
               checksum |-> ChecksumTree(r.Checksum)]
JsonTree(v, doc0) ==
  LET doc == JsonNorm(v, doc0)
      t0 == EntTree(v, "doc", doc)
      t1 == IF Has(doc, "CreationInfo") /\ doc.CreationInfo # Nil THEN Put(t0, "creationInfo", EntTree(v, "ci", doc.CreationInfo)) ELSE t0
      t2 == Sub(t1, "externalDocumentRefs", doc, "ExternalDocumentReferences", EdrTree)
      t3 == Sub(t2, "packages", doc, "Packages", LAMBDA p : PkgTree(v, p))
      t4 == Sub(t3, "files", doc, "Files", LAMBDA f : FileTree(v, f))
      t5 == Sub(t4, "hasExtractedLicensingInfos", doc, "OtherLicenses", LAMBDA l : EntTree(v, "lic", l))
      t6 == Sub(t5, "relationships", doc, "Relationships", LAMBDA r : RlnTree(v, r))
      t7 == Sub(t6, "annotations", doc, "Annotations", LAMBDA a : AnnTree(v, a))
  IN Sub(t7, "snippets", doc, "Snippets", LAMBDA s : EntTree(v, "snip", s))

(* --- versions --------------------------------------------------------------- *)
DropNew(ent, w, e) == Without(e, {Fields(ent)[i].g : i \in {j \in DOMAIN Fields(ent) : Fields(ent)[j].v > w}})
ConvSnip(w, s) == DropNew("snip", w, s)
ConvFile(w, f) == MapVals(DropNew("file", w, f), "Snippets", LAMBDA s : ConvSnip(w, s))
ConvPkg(w, p) == MapList(DropNew("pkg", w, p), "Files", LAMBDA f : ConvFile(w, f))
Convert(w, doc) ==
  LET d1 == MapList(doc, "Packages", LAMBDA p : ConvPkg(w, p))
      d2 == MapList(d1, "Files", LAMBDA f : ConvFile(w, f))
      d3 == MapList(d2, "Snippets", LAMBDA s : ConvSnip(w, s))
  IN Put(d3, "SPDXVersion", VerName(w))
\* direct conversion passes through the versions in between
Between(a, b) == IF a < b THEN [i \in 1..(b - a) |-> a + i] ELSE [i \in 1..(a - b) |-> a - i]
RECURSIVE ConvertAlong(_, _)
ConvertAlong(doc, vs) == IF vs = <<>> THEN doc ELSE ConvertAlong(Convert(vs[1], doc), Tail(vs))
=============================================================================
