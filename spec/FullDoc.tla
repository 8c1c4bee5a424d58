------------------------------ MODULE FullDoc ------------------------------
(* A document with one of every field JSON carries.                          *)
EXTENDS DocModel
Span(q) == [StartPointer |-> q @@ ("FileSPDXIdentifier" :> "f"), EndPointer |-> q @@ ("FileSPDXIdentifier" :> "g")]
ValOf(k, g) ==
  CASE k \in {"line", "text"} -> "of " \o g
    [] k = "name" -> "n"
    [] k \in {"lines", "texts"} -> <<"one", "two">>
    [] k \in {"id", "fromfile"} -> "id"
    [] k = "creators" -> <<[Creator |-> "c", CreatorType |-> "Tool"], [Creator |-> "d", CreatorType |-> "Person"]>>
    [] k = "annotator" -> [Annotator |-> "a", AnnotatorType |-> "Tool"]
    [] k = "supplier" -> [Supplier |-> "s", SupplierType |-> "Person"]
    [] k = "originator" -> [Originator |-> "o", OriginatorType |-> "Person"]
    [] k = "analyzed" -> TRUE
    [] k = "checksums" -> <<[Algorithm |-> "SHA1", Value |-> "ab"], [Algorithm |-> "MD5", Value |-> "cd"]>>
    [] k = "pvc" -> [Value |-> "ff", ExcludedFiles |-> <<"./x">>]
    [] k = "extrefs" -> <<[Category |-> "OTHER", RefType |-> "t", Locator |-> "l", ExternalRefComment |-> "c"]>>
    [] k = "aops" -> <<[Name |-> "p", HomePage |-> "h", URI |-> "u"]>>
    [] k = "ranges" -> <<Span([Offset |-> 1, LineNumber |-> 2]), Span([Offset |-> 3])>>
Listed(ent, w) == {i \in DOMAIN FieldsOf(ent, w) : LET f == FieldsOf(ent, w)[i] IN f.jv <= w /\ f.k \notin {"rln", "docelem", "version"}}
Full(ent, w) == LET fs == FieldsOf(ent, w) is == Listed(ent, w)
                IN [g \in {fs[i].g : i \in is} |-> LET i == CHOOSE j \in is : fs[j].g = g IN ValOf(fs[i].k, g)]
FullFile(w) == Full("file", w) @@ ("Annotations" :> <<Full("ann", w)>>)
FullPkg(w) == Full("pkg", w) @@ ("Files" :> <<FullFile(w)>>) @@ ("Annotations" :> <<Full("ann", w)>>)
FullDoc(w) ==
  Full("doc", w) @@ ("SPDXVersion" :> VerName(w)) @@ ("CreationInfo" :> Full("ci", w))
  @@ ("ExternalDocumentReferences" :> <<[DocumentRefID |-> "d", URI |-> "u", Checksum |-> [Algorithm |-> "SHA1", Value |-> "ab"]]>>)
  @@ ("Packages" :> <<FullPkg(w), [PackageName |-> "q", PackageSPDXIdentifier |-> "q", FilesAnalyzed |-> TRUE]>>) @@ ("Files" :> <<FullFile(w)>>) @@ ("OtherLicenses" :> <<Full("lic", w)>>)
  @@ ("Relationships" :> <<[RefA |-> [ElementRefID |-> "a"], RefB |-> [ElementRefID |-> "b"], Relationship |-> "OTHER", RelationshipComment |-> "c"]>>)
  @@ ("Annotations" :> <<Full("ann", w)>>) @@ ("Snippets" :> <<Full("snip", w)>>)
=============================================================================
