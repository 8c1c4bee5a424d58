------------------------------- MODULE Sample -------------------------------
(* A document with one of everything, its lists in order of identifier.      *)
EXTENDS DocModel

E(id) == [ElementRefID |-> id]
Noise(size) == IF size = "big" THEN "{{LONG}}\n{{LONG}}" ELSE "c\n{{U}}"
File(id, lic) ==
  ("FileName" :> ("./" \o id)) @@ ("FileSPDXIdentifier" :> id) @@ ("LicenseConcluded" :> lic) @@ ("FileComment" :> ("{{U}}\n" \o id))
  @@ ("Checksums" :> <<[Algorithm |-> "SHA1", Value |-> ("a" \o id)], [Algorithm |-> "MD5", Value |-> ("b" \o id)]>>)
  @@ ("LicenseInfoInFiles" :> <<"MIT", "ISC">>)
Snip(id, file) ==
  ("SnippetSPDXIdentifier" :> id) @@ ("SnippetFromFileSPDXIdentifier" :> file) @@ ("SnippetName" :> ("name of " \o id))
  @@ ("Ranges" :> <<[StartPointer |-> [Offset |-> 1], EndPointer |-> [Offset |-> 9]], [StartPointer |-> [LineNumber |-> 2], EndPointer |-> [LineNumber |-> 3]]>>)
Pkg(id, size, files) ==
  ("PackageName" :> id) @@ ("PackageSPDXIdentifier" :> id) @@ ("FilesAnalyzed" :> TRUE) @@ ("IsFilesAnalyzedTagPresent" :> TRUE)
  @@ ("PackageVersion" :> "1") @@ ("PackageChecksums" :> <<[Algorithm |-> "SHA1", Value |-> "ab"], [Algorithm |-> "MD5", Value |-> "cd"]>>)
  @@ ("PackageSupplier" :> [Supplier |-> "s (x@y.z)", SupplierType |-> "Person"])
  @@ ("PackageVerificationCode" :> [Value |-> "ff", ExcludedFiles |-> <<"./x", "./y">>])
  @@ ("PackageLicenseInfoFromFiles" :> <<"MIT", "ISC">>) @@ ("PackageComment" :> Noise(size))
  @@ ("PackageExternalReferences" :> <<[Category |-> "OTHER", RefType |-> "t", Locator |-> "l"], [Category |-> "SECURITY", RefType |-> "u", Locator |-> "m", ExternalRefComment |-> "c"]>>)
  @@ ("Files" :> files)
Doc(v, size) ==
  ("SPDXVersion" :> VerName(v)) @@ ("DataLicense" :> "CC0-1.0") @@ ("SPDXIdentifier" :> "DOCUMENT") @@ ("DocumentName" :> "n")
  @@ ("DocumentNamespace" :> "http://x.org/d") @@ ("DocumentComment" :> "l1\nl2\n\n  l3")
  @@ ("CreationInfo" :> [Created |-> "2010-01-29T18:30:22Z", Creators |-> <<[Creator |-> "t", CreatorType |-> "Tool"], [Creator |-> "p (a@b)", CreatorType |-> "Person"]>>])
  @@ ("ExternalDocumentReferences" :> <<[DocumentRefID |-> "d", URI |-> "http://x.org/e", Checksum |-> [Algorithm |-> "SHA1", Value |-> "cd"]],
                                        [DocumentRefID |-> "e", URI |-> "http://x.org/f", Checksum |-> [Algorithm |-> "SHA1", Value |-> "ef"]]>>)
  @@ ("Packages" :> <<Pkg("p", size, <<Put(File("f", "MIT"), "Snippets", "s" :> Snip("s", "f") @@ "t" :> Snip("t", "f")), File("g", "ISC OR MIT")>>),
                      Pkg("q", "small", <<File("h", "MIT"), File("i", "NOASSERTION")>>)>>)
  @@ ("Files" :> <<File("u", "ISC"), File("v", "MIT")>>)
  @@ ("OtherLicenses" :> <<("LicenseIdentifier" :> "LicenseRef-1") @@ ("ExtractedText" :> "t <b>") @@ ("LicenseName" :> "{{U}}") @@ ("LicenseCrossReferences" :> <<"http://a", "http://b">>)>>)
  @@ ("Relationships" :> <<[RefA |-> E("DOCUMENT"), RefB |-> E("p"), Relationship |-> "DESCRIBES"],
                           [RefA |-> E("q"), RefB |-> E("DOCUMENT"), Relationship |-> "DESCRIBED_BY"],
                           [RefA |-> E("p"), RefB |-> E("u"), Relationship |-> "CONTAINS", RelationshipComment |-> "rc"]>>)
  @@ ("Annotations" :> <<("Annotator" :> [Annotator |-> "a", AnnotatorType |-> "Tool"]) @@ ("AnnotationType" :> "OTHER") @@ ("AnnotationDate" :> "2010-01-29T18:30:22Z")
                         @@ ("AnnotationSPDXIdentifier" :> E("p")) @@ ("AnnotationComment" :> "the last\nwords")>>)
=============================================================================
