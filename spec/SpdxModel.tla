----------------------------- MODULE SpdxModel -----------------------------
(* The abstract data model of the three supported SPDX versions: which       *)
(* fields each kind of element has, since which version, what shape its      *)
(* value has, and under which tag / key / predicate each format carries it.  *)
(* All other modules are driven by these tables.                             *)
EXTENDS Naturals, Sequences, TLC, SequencesExt, FiniteSetsExt, Str

Versions == {21, 22, 23}
VerName(v) == CASE v = 21 -> "SPDX-2.1" [] v = 22 -> "SPDX-2.2" [] v = 23 -> "SPDX-2.3"

(* Kinds of simple fields:                                                   *)
(*   line   one-line string          text   string that may have many lines  *)
(*   lines  list of one-line strings texts  list of strings                  *)
(* The other kinds are structured and are spelled out where they are used.   *)
F(g, t, j, k, v) == [g |-> g, t |-> t, j |-> j, k |-> k, v |-> v, jv |-> v]
\* a field that JSON carries only from version jv on
FJ(g, t, j, k, v, jv) == [g |-> g, t |-> t, j |-> j, k |-> k, v |-> v, jv |-> jv]

DocFields == <<
  F("SPDXVersion", "SPDXVersion", "spdxVersion", "version", 21),
  F("DataLicense", "DataLicense", "dataLicense", "line", 21),
  F("SPDXIdentifier", "SPDXID", "SPDXID", "id", 21),
  F("DocumentName", "DocumentName", "name", "line", 21),
  F("DocumentNamespace", "DocumentNamespace", "documentNamespace", "line", 21),
  F("DocumentComment", "DocumentComment", "comment", "text", 21) >>

CIFields == <<
  F("LicenseListVersion", "LicenseListVersion", "licenseListVersion", "line", 21),
  F("Creators", "Creator", "creators", "creators", 21),
  F("Created", "Created", "created", "line", 21),
  F("CreatorComment", "CreatorComment", "comment", "text", 21) >>

PkgFields == <<
  F("PackageName", "PackageName", "name", "name", 21),
  F("PackageSPDXIdentifier", "SPDXID", "SPDXID", "id", 21),
  F("PackageVersion", "PackageVersion", "versionInfo", "line", 21),
  F("PackageFileName", "PackageFileName", "packageFileName", "line", 21),
  F("PackageSupplier", "PackageSupplier", "supplier", "supplier", 21),
  F("PackageOriginator", "PackageOriginator", "originator", "originator", 21),
  F("PackageDownloadLocation", "PackageDownloadLocation", "downloadLocation", "line", 21),
  F("FilesAnalyzed", "FilesAnalyzed", "filesAnalyzed", "analyzed", 21),
  F("PackageVerificationCode", "PackageVerificationCode", "packageVerificationCode", "pvc", 21),
  F("PackageChecksums", "PackageChecksum", "checksums", "checksums", 21),
  F("PackageHomePage", "PackageHomePage", "homepage", "line", 21),
  F("PackageSourceInfo", "PackageSourceInfo", "sourceInfo", "text", 21),
  F("PackageLicenseConcluded", "PackageLicenseConcluded", "licenseConcluded", "line", 21),
  F("PackageLicenseInfoFromFiles", "PackageLicenseInfoFromFiles", "licenseInfoFromFiles", "lines", 21),
  F("PackageLicenseDeclared", "PackageLicenseDeclared", "licenseDeclared", "line", 21),
  F("PackageLicenseComments", "PackageLicenseComments", "licenseComments", "text", 21),
  F("PackageCopyrightText", "PackageCopyrightText", "copyrightText", "text", 21),
  F("PackageSummary", "PackageSummary", "summary", "text", 21),
  F("PackageDescription", "PackageDescription", "description", "text", 21),
  F("PackageComment", "PackageComment", "comment", "text", 21),
  F("PackageExternalReferences", "ExternalRef", "externalRefs", "extrefs", 21),
  F("PackageAttributionTexts", "PackageAttributionText", "attributionTexts", "texts", 22),
  F("PrimaryPackagePurpose", "PrimaryPackagePurpose", "primaryPackagePurpose", "line", 23),
  F("ReleaseDate", "ReleaseDate", "releaseDate", "line", 23),
  F("BuiltDate", "BuiltDate", "builtDate", "line", 23),
  F("ValidUntilDate", "ValidUntilDate", "validUntilDate", "line", 23) >>

FileFields == <<
  F("FileName", "FileName", "fileName", "name", 21),
  F("FileSPDXIdentifier", "SPDXID", "SPDXID", "id", 21),
  F("FileTypes", "FileType", "fileTypes", "lines", 21),
  F("Checksums", "FileChecksum", "checksums", "checksums", 21),
  F("LicenseConcluded", "LicenseConcluded", "licenseConcluded", "line", 21),
  F("LicenseInfoInFiles", "LicenseInfoInFile", "licenseInfoInFiles", "lines", 21),
  F("LicenseComments", "LicenseComments", "licenseComments", "text", 21),
  F("FileCopyrightText", "FileCopyrightText", "copyrightText", "text", 21),
  FJ("ArtifactOfProjects", "ArtifactOfProjectName", "artifactOfs", "aops", 21, 23),
  F("FileComment", "FileComment", "comment", "text", 21),
  F("FileNotice", "FileNotice", "noticeText", "text", 21),
  F("FileContributors", "FileContributor", "fileContributors", "lines", 21),
  F("FileAttributionTexts", "FileAttributionText", "attributionTexts", "texts", 22),
  FJ("FileDependencies", "FileDependency", "fileDependencies", "lines", 21, 23) >>

SnipFields == <<
  F("SnippetSPDXIdentifier", "SnippetSPDXID", "SPDXID", "id", 21),
  F("SnippetFromFileSPDXIdentifier", "SnippetFromFileSPDXID", "snippetFromFile", "fromfile", 21),
  F("Ranges", "SnippetByteRange", "ranges", "ranges", 21),
  F("SnippetLicenseConcluded", "SnippetLicenseConcluded", "licenseConcluded", "line", 21),
  F("LicenseInfoInSnippet", "LicenseInfoInSnippet", "licenseInfoInSnippets", "lines", 21),
  F("SnippetLicenseComments", "SnippetLicenseComments", "licenseComments", "text", 21),
  F("SnippetCopyrightText", "SnippetCopyrightText", "copyrightText", "text", 21),
  F("SnippetComment", "SnippetComment", "comment", "text", 21),
  F("SnippetName", "SnippetName", "name", "line", 21),
  FJ("SnippetAttributionTexts", "SnippetAttributionText", "", "texts", 22, 99) >>

LicFields == <<
  F("LicenseIdentifier", "LicenseID", "licenseId", "name", 21),
  F("ExtractedText", "ExtractedText", "extractedText", "text", 21),
  F("LicenseName", "LicenseName", "name", "line", 21),
  F("LicenseCrossReferences", "LicenseCrossReference", "seeAlsos", "lines", 21),
  F("LicenseComment", "LicenseComment", "comment", "text", 21) >>

RlnFields == <<
  F("Relationship", "Relationship", "relationshipType", "rln", 21),
  F("RelationshipComment", "RelationshipComment", "comment", "text", 21) >>

AnnFields == <<
  F("Annotator", "Annotator", "annotator", "annotator", 21),
  F("AnnotationDate", "AnnotationDate", "annotationDate", "line", 21),
  F("AnnotationType", "AnnotationType", "annotationType", "line", 21),
  FJ("AnnotationSPDXIdentifier", "SPDXREF", "", "docelem", 21, 99),
  F("AnnotationComment", "AnnotationComment", "comment", "text", 21) >>

RevFields == <<
  F("Reviewer", "Reviewer", "", "reviewer", 21),
  F("ReviewDate", "ReviewDate", "", "line", 21),
  F("ReviewComment", "ReviewComment", "", "text", 21) >>

Fields(ent) ==
  CASE ent = "doc" -> DocFields [] ent = "ci" -> CIFields [] ent = "pkg" -> PkgFields
    [] ent = "file" -> FileFields [] ent = "snip" -> SnipFields [] ent = "lic" -> LicFields
    [] ent = "rln" -> RlnFields [] ent = "ann" -> AnnFields [] ent = "rev" -> RevFields

FieldsOf(ent, v) == SelectSeq(Fields(ent), LAMBDA f : f.v <= v)
SimpleKinds == {"line", "text", "lines", "texts"}
MultiKinds == {"lines", "texts"}
TextKinds == {"text", "texts"}
HasTag(ent, v, tag) == \E i \in DOMAIN Fields(ent) : Fields(ent)[i].t = tag /\ Fields(ent)[i].v <= v
FieldByTag(ent, tag) == LET fs == Fields(ent) IN fs[CHOOSE i \in DOMAIN fs : fs[i].t = tag]
FieldByGo(ent, g) == LET fs == Fields(ent) IN fs[CHOOSE i \in DOMAIN fs : fs[i].g = g]

\* checksum algorithms each version defines
ChecksumAlgos(v) ==
  CASE v = 21 -> <<"SHA1", "SHA256", "MD5">>
    [] v = 22 -> <<"SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "MD2", "MD4", "MD5", "MD6">>
    [] v = 23 -> <<"SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "MD2", "MD4", "MD5", "MD6",
                   "SHA3-256", "SHA3-384", "SHA3-512", "BLAKE2b-256", "BLAKE2b-384",
                   "BLAKE2b-512", "BLAKE3", "ADLER32">>
AllAlgos == ChecksumAlgos(23)
ActorTypes == <<"Person", "Organization", "Tool">>
PartyTypes == <<"Person", "Organization">>

\* records with absent fields are functions from field names
Nil == <<>>
With(f, k, x) == (k :> x) @@ f
Has(f, k) == f # Nil /\ k \in DOMAIN f
Get(f, k, dflt) == IF Has(f, k) THEN f[k] ELSE dflt
Put(f, k, x) == IF f = Nil THEN k :> x ELSE (k :> x) @@ f
AppendTo(f, k, x) == Put(f, k, Append(Get(f, k, <<>>), x))
Without(f, S) == IF f = Nil THEN Nil ELSE [k \in (DOMAIN f) \ S |-> f[k]]
Only(f, S) == IF f = Nil THEN Nil ELSE [k \in (DOMAIN f) \cap S |-> f[k]]

(* --- identifiers and references, as text ------------------------------- *)
ElementIdOf(s) ==              \* SPDXRef-x
  IF ~StartsWith(s, "SPDXRef-") \/ HasSub(s, ":") \/ s = "SPDXRef-" THEN Err
  ELSE Ok(TrimPrefix(s, "SPDXRef-"))

DocElementOf(s) ==             \* [DocumentRef-d:]SPDXRef-x
  IF StartsWith(s, "DocumentRef-")
  THEN LET p == SplitAll(s, ":")
       IN IF Len(p) # 2 \/ p[1] = "DocumentRef-" \/ IsErr(ElementIdOf(p[2])) THEN Err
          ELSE Ok([DocumentRefID |-> TrimPrefix(p[1], "DocumentRef-"), ElementRefID |-> ElementIdOf(p[2]).ok])
  ELSE IF IsErr(ElementIdOf(s)) THEN Err
  ELSE Ok([ElementRefID |-> ElementIdOf(s).ok])

DocElementText(r) ==
  IF Has(r, "SpecialID") THEN r.SpecialID
  ELSE (IF Has(r, "DocumentRefID") THEN "DocumentRef-" \o r.DocumentRefID \o ":" ELSE "")
       \o "SPDXRef-" \o r.ElementRefID

\* "Key: value"
SubsOf(s) == LET p == SplitFirst(s, ":")
             IN IF Len(p) = 1 THEN Err ELSE Ok(<<Trim(p[1]), Trim(p[2])>>)
=============================================================================
