-------------------------------- MODULE Vocab --------------------------------
(* The words that programs and documents share.  A program that makes a        *)
(* document says relationship types, checksum algorithms and kinds of external *)
(* references with the names the library exports, some of them under two       *)
(* names; a document says them with the terms of the SPDX specification; a     *)
(* program that reads a document tells them apart by the names again.  What    *)
(* one program says, the other hears, in every format and version that has the *)
(* term; and the library itself takes the terms as the programs mean them.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Emit
CONSTANTS MaxSaid, SIM
VARIABLES ver,     \* the version of the document
          said,    \* what the program says, one after the other: [fam, by (the exported name), ...]
          heard    \* the terms in the document

\* exported name in the package of common terms, and in package spdx; the term
Relationships == <<
  <<"common.TypeRelationshipDescribe", "spdx.RelationshipDescribes", "DESCRIBES">>, 
  <<"common.TypeRelationshipDescribeBy", "spdx.RelationshipDescribedBy", "DESCRIBED_BY">>, 
  <<"common.TypeRelationshipContains", "spdx.RelationshipContains", "CONTAINS">>, 
  <<"common.TypeRelationshipContainedBy", "spdx.RelationshipContainedBy", "CONTAINED_BY">>, 
  <<"common.TypeRelationshipDependsOn", "spdx.RelationshipDependsOn", "DEPENDS_ON">>, 
  <<"common.TypeRelationshipDependencyOf", "spdx.RelationshipDependencyOf", "DEPENDENCY_OF">>, 
  <<"common.TypeRelationshipBuildDependencyOf", "spdx.RelationshipBuildDependencyOf", "BUILD_DEPENDENCY_OF">>, 
  <<"common.TypeRelationshipDevDependencyOf", "spdx.RelationshipDevDependencyOf", "DEV_DEPENDENCY_OF">>, 
  <<"common.TypeRelationshipOptionalDependencyOf", "spdx.RelationshipOptionalDependencyOf", "OPTIONAL_DEPENDENCY_OF">>, 
  <<"common.TypeRelationshipProvidedDependencyOf", "spdx.RelationshipProvidedDependencyOf", "PROVIDED_DEPENDENCY_OF">>, 
  <<"common.TypeRelationshipTestDependencyOf", "spdx.RelationshipTestDependencyOf", "TEST_DEPENDENCY_OF">>, 
  <<"common.TypeRelationshipRuntimeDependencyOf", "spdx.RelationshipRuntimeDependencyOf", "RUNTIME_DEPENDENCY_OF">>, 
  <<"common.TypeRelationshipExampleOf", "spdx.RelationshipExampleOf", "EXAMPLE_OF">>, 
  <<"common.TypeRelationshipGenerates", "spdx.RelationshipGenerates", "GENERATES">>, 
  <<"common.TypeRelationshipGeneratedFrom", "spdx.RelationshipGeneratedFrom", "GENERATED_FROM">>, 
  <<"common.TypeRelationshipAncestorOf", "spdx.RelationshipAncestorOf", "ANCESTOR_OF">>, 
  <<"common.TypeRelationshipDescendantOf", "spdx.RelationshipDescendantOf", "DESCENDANT_OF">>, 
  <<"common.TypeRelationshipVariantOf", "spdx.RelationshipVariantOf", "VARIANT_OF">>, 
  <<"common.TypeRelationshipDistributionArtifact", "spdx.RelationshipDistributionArtifact", "DISTRIBUTION_ARTIFACT">>, 
  <<"common.TypeRelationshipPatchFor", "spdx.RelationshipPatchFor", "PATCH_FOR">>, 
  <<"common.TypeRelationshipPatchApplied", "spdx.RelationshipPatchApplied", "PATCH_APPLIED">>, 
  <<"common.TypeRelationshipCopyOf", "spdx.RelationshipCopyOf", "COPY_OF">>, 
  <<"common.TypeRelationshipFileAdded", "spdx.RelationshipFileAdded", "FILE_ADDED">>, 
  <<"common.TypeRelationshipFileDeleted", "spdx.RelationshipFileDeleted", "FILE_DELETED">>, 
  <<"common.TypeRelationshipFileModified", "spdx.RelationshipFileModified", "FILE_MODIFIED">>, 
  <<"common.TypeRelationshipExpandedFromArchive", "spdx.RelationshipExpandedFromArchive", "EXPANDED_FROM_ARCHIVE">>, 
  <<"common.TypeRelationshipDynamicLink", "spdx.RelationshipDynamicLink", "DYNAMIC_LINK">>, 
  <<"common.TypeRelationshipStaticLink", "spdx.RelationshipStaticLink", "STATIC_LINK">>, 
  <<"common.TypeRelationshipDataFileOf", "spdx.RelationshipDataFileOf", "DATA_FILE_OF">>, 
  <<"common.TypeRelationshipTestCaseOf", "spdx.RelationshipTestCaseOf", "TEST_CASE_OF">>, 
  <<"common.TypeRelationshipBuildToolOf", "spdx.RelationshipBuildToolOf", "BUILD_TOOL_OF">>, 
  <<"common.TypeRelationshipDevToolOf", "spdx.RelationshipDevToolOf", "DEV_TOOL_OF">>, 
  <<"common.TypeRelationshipTestOf", "spdx.RelationshipTestOf", "TEST_OF">>, 
  <<"common.TypeRelationshipTestToolOf", "spdx.RelationshipTestToolOf", "TEST_TOOL_OF">>, 
  <<"common.TypeRelationshipDocumentationOf", "spdx.RelationshipDocumentationOf", "DOCUMENTATION_OF">>, 
  <<"common.TypeRelationshipOptionalComponentOf", "spdx.RelationshipOptionalComponentOf", "OPTIONAL_COMPONENT_OF">>, 
  <<"common.TypeRelationshipMetafileOf", "spdx.RelationshipMetafileOf", "METAFILE_OF">>, 
  <<"common.TypeRelationshipPackageOf", "spdx.RelationshipPackageOf", "PACKAGE_OF">>, 
  <<"common.TypeRelationshipAmends", "spdx.RelationshipAmends", "AMENDS">>, 
  <<"common.TypeRelationshipPrerequisiteFor", "spdx.RelationshipPrerequisiteFor", "PREREQUISITE_FOR">>, 
  <<"common.TypeRelationshipHasPrerequisite", "spdx.RelationshipHasPrerequisite", "HAS_PREREQUISITE">>, 
  <<"common.TypeRelationshipRequirementDescriptionFor", "spdx.RelationshipRequirementDescriptionFor", "REQUIREMENT_DESCRIPTION_FOR">>, 
  <<"common.TypeRelationshipSpecificationFor", "spdx.RelationshipSpecificationFor", "SPECIFICATION_FOR">>, 
  <<"common.TypeRelationshipOther", "spdx.RelationshipOther", "OTHER">>>>
\* the versions whose specification has the algorithm
Algorithms == <<
  <<"common.SHA224", "spdx.SHA224", "SHA224", 22>>, <<"common.SHA1", "spdx.SHA1", "SHA1", 21>>, <<"common.SHA256", "spdx.SHA256", "SHA256", 21>>, 
  <<"common.SHA384", "spdx.SHA384", "SHA384", 22>>, <<"common.SHA512", "spdx.SHA512", "SHA512", 22>>, <<"common.MD2", "spdx.MD2", "MD2", 22>>, 
  <<"common.MD4", "spdx.MD4", "MD4", 22>>, <<"common.MD5", "spdx.MD5", "MD5", 21>>, <<"common.MD6", "spdx.MD6", "MD6", 22>>, 
  <<"common.SHA3_256", "spdx.SHA3_256", "SHA3-256", 23>>, <<"common.SHA3_384", "spdx.SHA3_384", "SHA3-384", 23>>, 
  <<"common.SHA3_512", "spdx.SHA3_512", "SHA3-512", 23>>, <<"common.BLAKE2b_256", "spdx.BLAKE2b_256", "BLAKE2b-256", 23>>, 
  <<"common.BLAKE2b_384", "spdx.BLAKE2b_384", "BLAKE2b-384", 23>>, <<"common.BLAKE2b_512", "spdx.BLAKE2b_512", "BLAKE2b-512", 23>>, 
  <<"common.BLAKE3", "spdx.BLAKE3", "BLAKE3", 23>>, <<"common.ADLER32", "spdx.ADLER32", "ADLER32", 23>>>>
Categories == <<
  <<"common.CategorySecurity", "spdx.CategorySecurity", "SECURITY">>, 
  <<"common.CategoryPackageManager", "spdx.CategoryPackageManager", "PACKAGE-MANAGER">>, 
  <<"common.CategoryPersistentId", "spdx.CategoryPersistentId", "PERSISTENT-ID">>, <<"common.CategoryOther", "spdx.CategoryOther", "OTHER">>>>
RefTypes == <<   \* and the category it belongs to
  <<"common.TypeSecurityCPE23Type", "spdx.SecurityCPE23Type", "cpe23Type", "SECURITY">>, 
  <<"common.TypeSecurityCPE22Type", "spdx.SecurityCPE22Type", "cpe22Type", "SECURITY">>, 
  <<"common.TypeSecurityAdvisory", "spdx.SecurityAdvisory", "advisory", "SECURITY">>, 
  <<"common.TypeSecurityFix", "spdx.SecurityFix", "fix", "SECURITY">>, <<"common.TypeSecurityUrl", "spdx.SecurityUrl", "url", "SECURITY">>, 
  <<"common.TypeSecuritySwid", "spdx.SecuritySwid", "swid", "SECURITY">>, 
  <<"common.TypePackageManagerMavenCentral", "spdx.PackageManagerMavenCentral", "maven-central", "PACKAGE-MANAGER">>, 
  <<"common.TypePackageManagerNpm", "spdx.PackageManagerNpm", "npm", "PACKAGE-MANAGER">>, 
  <<"common.TypePackageManagerNuGet", "spdx.PackageManagerNuGet", "nuget", "PACKAGE-MANAGER">>, 
  <<"common.TypePackageManagerBower", "spdx.PackageManagerBower", "bower", "PACKAGE-MANAGER">>, 
  <<"common.TypePackageManagerPURL", "spdx.PackageManagerPURL", "purl", "PACKAGE-MANAGER">>, 
  <<"common.TypePersistentIdSwh", "spdx.TypePersistentIdSwh", "swh", "PERSISTENT-ID">>, 
  <<"common.TypePersistentIdGitoid", "spdx.TypePersistentIdGitoid", "gitoid", "PERSISTENT-ID">>>>
\* what versions call themselves, and the licence of their data
Versions == <<<<"v2_1.Version", "SPDX-2.1", 21>>, <<"v2_2.Version", "SPDX-2.2", 22>>, <<"v2_3.Version", "SPDX-2.3", 23>>, <<"spdx.Version", "SPDX-2.3", 23>>>>
Licenses == <<<<"v2_1.DataLicense", 21>>, <<"v2_2.DataLicense", 22>>, <<"v2_3.DataLicense", 23>>, <<"spdx.DataLicense", 23>>>>

Term(t, name) == (CHOOSE i \in DOMAIN t : name \in {t[i][1], t[i][2]})
NamesOf(row) == {row[1], row[2]}
\* every way to say something in a document of version v
Sayable(v) ==
  {[fam |-> "rel", by |-> n, term |-> Relationships[i][3]] : <<i, n>> \in UNION {{<<i, n>> : n \in NamesOf(Relationships[i])} : i \in DOMAIN Relationships}}
  \cup {[fam |-> "sum", by |-> n, term |-> Algorithms[i][3]] : <<i, n>> \in UNION {{<<i, n>> : n \in NamesOf(Algorithms[i])} : i \in {j \in DOMAIN Algorithms : Algorithms[j][4] <= v}}}
  \cup {[fam |-> "ref", by |-> n, term |-> RefTypes[i][3], cat |-> c, catterm |-> RefTypes[i][4]] :
          <<i, n, c>> \in UNION {{<<i, n, c>> : n \in NamesOf(RefTypes[i]), c \in UNION {NamesOf(Categories[k]) : k \in {j \in DOMAIN Categories : Categories[j][3] = RefTypes[i][4]}}} : i \in DOMAIN RefTypes}}
Heard(x) == IF x.fam = "ref" THEN <<x.fam, x.catterm, x.term>> ELSE <<x.fam, x.term>>

\* ------------------------------------------------------------------ documents
Nth(i) == ToString(i)
Of(fam, s) == SelectSeq(s, LAMBDA x : x.fam = fam)
Numbered(s) == [i \in DOMAIN s |-> [n |-> Nth(i), x |-> s[i]]]
Each(fam, s, F(_, _)) == LET t == Of(fam, s) IN [i \in DOMAIN t |-> F(Nth(i), t[i])]
\* the document as the program makes it: @name is the value of the exported name
AsMade(v, s) ==
  [SPDXVersion |-> "@v2_" \o ToString(v - 20) \o ".Version", DataLicense |-> "@v2_" \o ToString(v - 20) \o ".DataLicense", SPDXIdentifier |-> "DOCUMENT", DocumentName |-> "d", DocumentNamespace |-> "https://example.com/d",
   CreationInfo |-> [Created |-> "2024-01-02T03:04:05Z", Creators |-> <<[Creator |-> "t", CreatorType |-> "Tool"]>>],
   Packages |-> <<[PackageName |-> "p", PackageSPDXIdentifier |-> "p", PackageDownloadLocation |-> "NONE", FilesAnalyzed |-> FALSE, IsFilesAnalyzedTagPresent |-> TRUE, PackageLicenseConcluded |-> "NONE", PackageLicenseDeclared |-> "NONE", PackageCopyrightText |-> "NONE",
                  PackageChecksums |-> Each("sum", s, LAMBDA n, x : [Algorithm |-> "@" \o x.by, Value |-> "a" \o n]),
                  PackageExternalReferences |-> Each("ref", s, LAMBDA n, x : [Category |-> "@" \o x.cat, RefType |-> "@" \o x.by, Locator |-> "l" \o n])]>>,
   Relationships |-> Each("rel", s, LAMBDA n, x : [RefA |-> [ElementRefID |-> "p"], RefB |-> [DocumentRefID |-> "o", ElementRefID |-> "e" \o n], Relationship |-> "@" \o x.by])]
\* and as the lines of a tag-value document
Lines(v, s) ==
  <<"SPDXVersion: SPDX-2." \o ToString(v - 20), "DataLicense: CC0-1.0", "SPDXID: SPDXRef-DOCUMENT", "DocumentName: d", "DocumentNamespace: https://example.com/d", "Creator: Tool: t", "Created: 2024-01-02T03:04:05Z",
    "PackageName: p", "SPDXID: SPDXRef-p", "PackageDownloadLocation: NONE", "FilesAnalyzed: false">>
  \o Each("sum", s, LAMBDA n, x : "PackageChecksum: " \o x.term \o ": a" \o n)
  \o <<"PackageLicenseConcluded: NONE", "PackageLicenseDeclared: NONE", "PackageCopyrightText: NONE">>
  \o Each("ref", s, LAMBDA n, x : "ExternalRef: " \o x.catterm \o " " \o x.term \o " l" \o n)
  \o Each("rel", s, LAMBDA n, x : "Relationship: SPDXRef-p " \o x.term \o " DocumentRef-o:SPDXRef-e" \o n)
\* and as a tree; the JSON schema of version 2.2 has _ where the text of the specification has -
InTree(v, cat) == IF v # 22 THEN cat ELSE CASE cat = "PACKAGE-MANAGER" -> "PACKAGE_MANAGER" [] cat = "PERSISTENT-ID" -> "PERSISTENT_ID" [] OTHER -> cat
Entry(key, l) == IF l = <<>> THEN <<>> ELSE key :> l
Tree(v, s) ==
  [spdxVersion |-> "SPDX-2." \o ToString(v - 20), dataLicense |-> "CC0-1.0", SPDXID |-> "SPDXRef-DOCUMENT", name |-> "d", documentNamespace |-> "https://example.com/d",
   creationInfo |-> [created |-> "2024-01-02T03:04:05Z", creators |-> <<"Tool: t">>],
   packages |-> <<[name |-> "p", SPDXID |-> "SPDXRef-p", downloadLocation |-> "NONE", filesAnalyzed |-> FALSE, licenseConcluded |-> "NONE", licenseDeclared |-> "NONE", copyrightText |-> "NONE"]
                  @@ Entry("checksums", Each("sum", s, LAMBDA n, x : [algorithm |-> x.term, checksumValue |-> "a" \o n]))
                  @@ Entry("externalRefs", Each("ref", s, LAMBDA n, x : [referenceCategory |-> InTree(v, x.catterm), referenceType |-> x.term, referenceLocator |-> "l" \o n]))>>]
  @@ Entry("relationships", Each("rel", s, LAMBDA n, x : [spdxElementId |-> "SPDXRef-p", relatedSpdxElement |-> "DocumentRef-o:SPDXRef-e" \o n, relationshipType |-> x.term]))
\* what the library itself makes of the term: between the document and a package
MeansDescribes(x) == x.fam = "rel" /\ x.term = "DESCRIBES"
MeansDescribedBy(x) == x.fam = "rel" /\ x.term = "DESCRIBED_BY"

Out == \E s \in {said'} : s # <<>> /\ \E l \in {s[Len(s)]} :
  Emit([k |-> "vocab", label |-> "2." \o ToString(ver - 20) \o " " \o l.fam, ver |-> ver, doc |-> AsMade(ver, s), lines |-> Lines(ver, s), tree |-> Tree(ver, s),
        names |-> [i \in DOMAIN s |-> [name |-> s[i].by, term |-> s[i].term, fwd |-> MeansDescribes(s[i]), bwd |-> MeansDescribedBy(s[i]), fam |-> s[i].fam]],
        versions |-> SelectSeq(Versions, LAMBDA r : r[3] = ver), licenses |-> SelectSeq(Licenses, LAMBDA r : r[2] = ver)])

Init == ver \in {21, 22, 23} /\ said = <<>> /\ heard = <<>>
Say(x) == said' = Append(said, x) /\ heard' = Append(heard, Heard(x)) /\ UNCHANGED ver
Next == /\ Len(said) < MaxSaid
        /\ IF SIM THEN \E x \in {RandomElement(Sayable(ver))} : Say(x) ELSE \E x \in Sayable(ver) : Say(x)
        /\ Out
Spec == Init /\ [][Next]_<<ver, said, heard>>

\* ---------------------------------------------------------------------- facts
\* a reader who tells terms apart by the names understands what was said
Recognised(h) == {x.by : x \in {y \in Sayable(ver) : Heard(y) = h}}
Understood == \A i \in DOMAIN said : said[i].by \in Recognised(heard[i])
\* and nothing else: two names of one thing are the most a term has
Unambiguous == \A i \in DOMAIN heard : Cardinality({x.by : x \in {y \in Sayable(ver) : Heard(y) = heard[i]}}) <= 2
OneLineEach == Len(Lines(ver, said)) = 14 + Len(said)
=============================================================================
