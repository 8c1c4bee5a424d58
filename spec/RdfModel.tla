----------------------------- MODULE RdfModel -----------------------------
(* RDF documents as graphs: which kinds of node there are, which statements  *)
(* each may be the subject of, and the document a graph stands for. A graph  *)
(* is G = [v, nodes, st]: nodes is a sequence of [id, kind, name], name one  *)
(* of "iri" (rdf:about), "label" (rdf:nodeID) and "none"; st is a sequence   *)
(* of statements [s, p, k, o, m] without duplicates: subject, predicate, a   *)
(* literal ("lit"), a resource outside the graph ("res") or a node ("node"), *)
(* its text or id, and what that text means.                                 *)
EXTENDS SpdxModel

NsUri == "http://x.org/d"
Terms == "http://spdx.org/rdf/terms#"
ElemKinds == {"doc", "pkg", "file", "snip"}
TypeOf(kind) ==
  CASE kind = "doc" -> "spdx:SpdxDocument" [] kind = "pkg" -> "spdx:Package" [] kind = "file" -> "spdx:File" [] kind = "snip" -> "spdx:Snippet"
    [] kind = "lic" -> "spdx:ExtractedLicensingInfo" [] kind = "rel" -> "spdx:Relationship" [] kind = "ann" -> "spdx:Annotation"
    [] kind = "ci" -> "spdx:CreationInfo" [] kind = "ck" -> "spdx:Checksum" [] kind = "pvc" -> "spdx:PackageVerificationCode"
    [] kind = "er" -> "spdx:ExternalRef" [] kind = "edr" -> "spdx:ExternalDocumentRef" [] kind = "rev" -> "spdx:Review"
    [] kind = "range" -> "ptr:StartEndPointer" [] kind = "bp" -> "ptr:ByteOffsetPointer" [] kind = "lp" -> "ptr:LineCharPointer"
    [] kind = "aop" -> "doap:Project"
    [] kind = "listed" -> "spdx:ListedLicense" [] kind = "license" -> "spdx:License" [] kind = "simple" -> "spdx:SimpleLicensingInfo"
    [] kind = "and" -> "spdx:ConjunctiveLicenseSet" [] kind = "or" -> "spdx:DisjunctiveLicenseSet" [] kind = "later" -> "spdx:OrLaterOperator"
    [] kind = "with" -> "spdx:WithExceptionOperator" [] kind = "exc" -> "spdx:LicenseException"
\* the identifier of an element, a licence or another node, and its URI
Local(n) == CASE n.kind \in ElemKinds -> "SPDXRef-" \o n.id [] n.kind = "lic" -> "LicenseRef-" \o n.id [] OTHER -> n.id
Listed == "http://spdx.org/licenses/"
UriOf(n) == IF n.kind \in {"listed", "license", "exc"} THEN Listed \o n.id ELSE NsUri \o "#" \o Local(n)

(* --- the vocabulary -------------------------------------------------------- *)
\* a property: its predicate, what it does to the subject's field g, and since when
R(p, h, g, v) == [p |-> p, h |-> h, g |-> g, v |-> v]
Props(kind) ==
  CASE kind = "doc" -> <<
         R("spdx:specVersion", "version", "SPDXVersion", 22), R("spdx:dataLicense", "licence", "DataLicense", 22),
         R("spdx:name", "text", "DocumentName", 22), R("spdx:externalDocumentRef", "subs edr", "ExternalDocumentReferences", 22),
         R("spdx:creationInfo", "sub ci", "CreationInfo", 22), R("rdfs:comment", "text", "DocumentComment", 22),
         R("spdx:reviewed", "subs rev", "Reviews", 22), R("spdx:describesPackage", "elem pkg", "", 22),
         R("spdx:hasExtractedLicensingInfo", "elem lic", "", 22), R("spdx:relationship", "elem rel", "", 22), R("spdx:annotation", "elem ann", "", 22) >>
    [] kind = "ci" -> <<
         R("spdx:licenseListVersion", "version number", "LicenseListVersion", 22), R("spdx:creator", "creators", "Creators", 22),
         R("spdx:created", "date", "Created", 22), R("rdfs:comment", "text", "CreatorComment", 22) >>
    [] kind = "pkg" -> <<
         R("spdx:name", "text", "PackageName", 22), R("spdx:versionInfo", "text", "PackageVersion", 22), R("spdx:packageFileName", "text", "PackageFileName", 22),
         R("spdx:supplier", "supplier", "PackageSupplier", 22), R("spdx:originator", "originator", "PackageOriginator", 22),
         R("spdx:downloadLocation", "location", "PackageDownloadLocation", 22), R("spdx:filesAnalyzed", "analyzed", "FilesAnalyzed", 22),
         R("spdx:packageVerificationCode", "sub pvc", "PackageVerificationCode", 22), R("spdx:checksum", "subs ck", "PackageChecksums", 22),
         R("doap:homepage", "uri", "PackageHomePage", 22), R("spdx:sourceInfo", "text", "PackageSourceInfo", 22),
         R("spdx:licenseConcluded", "licence", "PackageLicenseConcluded", 22), R("spdx:licenseInfoFromFiles", "licences", "PackageLicenseInfoFromFiles", 22),
         R("spdx:licenseDeclared", "licence", "PackageLicenseDeclared", 22), R("spdx:licenseComments", "text", "PackageLicenseComments", 22),
         R("spdx:copyrightText", "text", "PackageCopyrightText", 22), R("spdx:summary", "text", "PackageSummary", 22),
         R("spdx:description", "text", "PackageDescription", 22), R("rdfs:comment", "text", "PackageComment", 22),
         R("spdx:externalRef", "subs er", "PackageExternalReferences", 22), R("spdx:hasFile", "files", "Files", 22),
         R("spdx:attributionText", "texts", "PackageAttributionTexts", 22), R("spdx:relationship", "elem rel", "", 22), R("spdx:annotation", "elem ann", "", 22),
         R("spdx:primaryPackagePurpose", "purpose", "PrimaryPackagePurpose", 23), R("spdx:releaseDate", "date", "ReleaseDate", 23),
         R("spdx:builtDate", "date", "BuiltDate", 23), R("spdx:validUntilDate", "date", "ValidUntilDate", 23) >>
    [] kind = "file" -> <<
         R("spdx:fileName", "text", "FileName", 22), R("spdx:fileType", "filetypes", "FileTypes", 22), R("spdx:checksum", "subs ck", "Checksums", 22),
         R("spdx:licenseConcluded", "licence", "LicenseConcluded", 22), R("spdx:licenseInfoInFile", "licences", "LicenseInfoInFiles", 22),
         R("spdx:licenseComments", "text", "LicenseComments", 22), R("spdx:copyrightText", "text", "FileCopyrightText", 22),
         R("spdx:artifactOf", "subs aop", "ArtifactOfProjects", 22), R("rdfs:comment", "text", "FileComment", 22), R("spdx:noticeText", "text", "FileNotice", 22),
         R("spdx:fileContributor", "texts", "FileContributors", 22), R("spdx:fileDependency", "deps", "FileDependencies", 22),
         R("spdx:attributionText", "texts", "FileAttributionTexts", 22), R("spdx:relationship", "elem rel", "", 22), R("spdx:annotation", "elem ann", "", 22) >>
    [] kind = "snip" -> <<
         R("spdx:snippetFromFile", "from file", "SnippetFromFileSPDXIdentifier", 22), R("spdx:range", "ranges", "Ranges", 22),
         R("spdx:licenseConcluded", "licence", "SnippetLicenseConcluded", 22), R("spdx:licenseInfoInSnippet", "licences", "LicenseInfoInSnippet", 22),
         R("spdx:licenseComments", "text", "SnippetLicenseComments", 22), R("spdx:copyrightText", "text", "SnippetCopyrightText", 22),
         R("rdfs:comment", "text", "SnippetComment", 22), R("spdx:name", "text", "SnippetName", 22), R("spdx:attributionText", "texts", "SnippetAttributionTexts", 22),
         R("spdx:relationship", "elem rel", "", 22), R("spdx:annotation", "elem ann", "", 22) >>
    [] kind = "lic" -> <<
         R("spdx:licenseId", "id", "LicenseIdentifier", 22), R("spdx:extractedText", "text", "ExtractedText", 22), R("spdx:name", "text", "LicenseName", 22),
         R("rdfs:seeAlso", "uris", "LicenseCrossReferences", 22), R("rdfs:comment", "text", "LicenseComment", 22) >>
    [] kind = "rel" -> << R("spdx:relationshipType", "reltype", "Relationship", 22), R("spdx:relatedSpdxElement", "related", "RefB", 22),
                          R("rdfs:comment", "text", "RelationshipComment", 22) >>
    [] kind = "ann" -> << R("spdx:annotator", "annotator", "Annotator", 22), R("spdx:annotationDate", "date", "AnnotationDate", 22),
                          R("spdx:annotationType", "anntype", "AnnotationType", 22), R("rdfs:comment", "text", "AnnotationComment", 22) >>
    [] kind = "edr" -> << R("spdx:externalDocumentId", "docref", "DocumentRefID", 22), R("spdx:spdxDocument", "resource", "URI", 22), R("spdx:checksum", "sub ck", "Checksum", 22) >>
    [] kind = "rev" -> << R("spdx:reviewer", "reviewer", "", 22), R("spdx:reviewDate", "date", "ReviewDate", 22), R("rdfs:comment", "text", "ReviewComment", 22) >>
    [] kind = "er" -> << R("spdx:referenceCategory", "category", "Category", 22), R("spdx:referenceType", "resource", "RefType", 22),
                         R("spdx:referenceLocator", "text", "Locator", 22), R("rdfs:comment", "text", "ExternalRefComment", 22) >>
    [] kind = "pvc" -> << R("spdx:packageVerificationCodeValue", "hash", "Value", 22), R("spdx:packageVerificationCodeExcludedFile", "texts", "ExcludedFiles", 22) >>
    [] kind = "ck" -> << R("spdx:algorithm", "algorithm", "Algorithm", 22), R("spdx:checksumValue", "hash", "Value", 22) >>
    [] kind = "range" -> << R("ptr:startPointer", "sub ptr", "StartPointer", 22), R("ptr:endPointer", "sub ptr", "EndPointer", 22) >>
    [] kind = "bp" -> << R("ptr:reference", "elem file", "", 22), R("ptr:offset", "number", "Offset", 22) >>
    [] kind = "lp" -> << R("ptr:reference", "elem file", "", 22), R("ptr:lineNumber", "number", "LineNumber", 22) >>
    [] kind = "aop" -> << R("doap:homepage", "uri", "HomePage", 22), R("doap:name", "text", "Name", 22) >>
    \* licences are read as expressions (see RdfLicense): what else they say is not kept
    [] kind \in {"listed", "license"} -> <<
         R("spdx:licenseId", "id", "", 22), R("spdx:name", "text", "", 22), R("rdfs:seeAlso", "uris", "", 22), R("rdfs:comment", "text", "", 22), R("spdx:example", "text", "", 22),
         R("spdx:isOsiApproved", "boolean", "", 22), R("spdx:isFsfLibre", "boolean", "", 22), R("spdx:isDeprecatedLicenseId", "boolean", "", 22), R("spdx:licenseText", "text", "", 22),
         R("spdx:standardLicenseHeader", "text", "", 22), R("spdx:standardLicenseTemplate", "text", "", 22), R("spdx:standardLicenseHeaderTemplate", "text", "", 22) >>
    [] kind = "simple" -> << R("spdx:licenseId", "id", "", 22), R("spdx:name", "text", "", 22), R("rdfs:seeAlso", "uris", "", 22), R("rdfs:comment", "text", "", 22), R("spdx:example", "text", "", 22) >>
    [] kind = "exc" -> << R("spdx:licenseExceptionId", "id", "", 22), R("spdx:licenseExceptionText", "text", "", 22), R("spdx:name", "text", "", 22), R("rdfs:seeAlso", "uri", "", 22),
                          R("rdfs:comment", "text", "", 22), R("spdx:example", "text", "", 22) >>
PropsIn(kind, v) == SelectSeq(Props(kind), LAMBDA r : r.v <= v)
PropOf(kind, p) == LET q == Props(kind) IN q[CHOOSE i \in DOMAIN q : q[i].p = p]

\* the kinds of node a property may lead to
TargetKinds(h) ==
  CASE h \in {"subs edr"} -> {"edr"} [] h = "sub ci" -> {"ci"} [] h = "subs rev" -> {"rev"} [] h = "elem pkg" -> {"pkg"}
    [] h = "elem lic" -> {"lic"} [] h = "elem rel" -> {"rel"} [] h = "elem ann" -> {"ann"} [] h = "sub pvc" -> {"pvc"}
    [] h \in {"sub ck", "subs ck"} -> {"ck"} [] h = "subs er" -> {"er"} [] h \in {"files", "deps", "elem file", "from file"} -> {"file"}
    [] h = "subs aop" -> {"aop"} [] h = "ranges" -> {"range"} [] h = "sub ptr" -> {"bp", "lp"} [] h \in {"licence", "licences"} -> {"lic"}
    [] h = "related" -> ElemKinds [] OTHER -> {}
\* properties an element may have several of
Many(h) == h \in {"subs edr", "subs rev", "elem pkg", "elem lic", "elem rel", "elem ann", "creators", "subs ck", "licences", "subs er", "files", "texts",
                  "filetypes", "subs aop", "deps", "ranges", "uris"}

(* --- values ---------------------------------------------------------------- *)
Lit(o, m) == [k |-> "lit", o |-> o, m |-> m]
Res(o, m) == [k |-> "res", o |-> o, m |-> m]
Same(q) == [i \in DOMAIN q |-> Lit(q[i], q[i])]
Party(q, name, type) == [i \in DOMAIN q |-> Lit(q[i][1] \o ": " \o q[i][2], (name :> q[i][2]) @@ (type :> q[i][1]))]
People(N) == << <<"Person", "A " \o N \o " (a@x.org)">>, <<"Organization", "O: " \o N>> >>
Tools(N) == << <<"Tool", "t-" \o N \o ":1">> >>
Texts(N) ==
  Same(<<"v" \o N, "two words " \o N, "a: b # " \o N, "line\n  line " \o N \o "\n\nline", "http://x.org/y#" \o N, "NOASSERTION", "'q' \"r\" \\n " \o N, "{{U}} " \o N, "true">>)
  \o <<Lit("&lt;b&gt; " \o N \o " &amp;amp; &quot;c&quot; &#10;d", "<b> " \o N \o " &amp; \"c\" \nd"), Lit("{{U}}&lt;" \o N, "{{U}}<" \o N),
       Lit("<![CDATA[<i> & &amp; {{U}} " \o N \o "]]>", "<i> & &amp; {{U}} " \o N)>>
RelTypes(v) == <<"describes", "describedBy", "contains", "containedBy", "dependsOn", "dependencyOf", "dependencyManifestOf", "buildDependencyOf",
  "devDependencyOf", "optionalDependencyOf", "providedDependencyOf", "testDependencyOf", "runtimeDependencyOf", "exampleOf", "generates", "generatedFrom",
  "ancestorOf", "descendantOf", "variantOf", "distributionArtifact", "patchFor", "patchApplied", "copyOf", "fileAdded", "fileDeleted", "fileModified",
  "expandedFromArchive", "dynamicLink", "staticLink", "dataFileOf", "testcaseOf", "buildToolOf", "devToolOf", "testOf", "testToolOf", "documentation",
  "optionalComponentOf", "metafileOf", "packageOf", "amendment", "prerequisiteFor", "hasPrerequisite", "other">>
  \o (IF v = 23 THEN <<"requirementDescriptionFor", "specificationFor">> ELSE <<>>)
FileTypes == <<"source", "binary", "archive", "application", "audio", "image", "text", "video", "documentation", "spdx", "other">>
AlgoTerm(a) == CASE a = "SHA3-256" -> "sha3_256" [] a = "SHA3-384" -> "sha3_384" [] a = "SHA3-512" -> "sha3_512"
                 [] a = "BLAKE2b-256" -> "blake2b256" [] a = "BLAKE2b-384" -> "blake2b384" [] a = "BLAKE2b-512" -> "blake2b512"
                 [] a = "BLAKE3" -> "blake3" [] a = "ADLER32" -> "adler32" [] a = "SHA1" -> "sha1" [] a = "SHA224" -> "sha224" [] a = "SHA256" -> "sha256"
                 [] a = "SHA384" -> "sha384" [] a = "SHA512" -> "sha512" [] a = "MD2" -> "md2" [] a = "MD4" -> "md4" [] a = "MD5" -> "md5" [] a = "MD6" -> "md6"
Purposes == << <<"application", "APPLICATION">>, <<"framework", "FRAMEWORK">>, <<"library", "LIBRARY">>, <<"container", "CONTAINER">>,
               <<"operating_system", "OPERATING-SYSTEM">>, <<"device", "DEVICE">>, <<"firmware", "FIRMWARE">>, <<"source", "SOURCE">>, <<"archive", "ARCHIVE">>,
               <<"file", "FILE">>, <<"install", "INSTALL">>, <<"other", "OTHER">> >>
NoneOr(q) == q \o <<Res(Terms \o "none", "NONE"), Res(Terms \o "noassertion", "NOASSERTION")>>
ResMap(q, Op(_), Mean(_)) == [i \in DOMAIN q |-> Res(Terms \o Op(q[i]), Mean(q[i]))]
\* the values of a property that does not lead to a node
Values(h, v, N) ==
  CASE h \in {"text", "texts"} -> Texts(N)
    [] h = "version" -> Same(<<VerName(v)>>)
    [] h = "version number" -> Same(<<"3.19">>)
    [] h = "date" -> Same(<<"2010-01-29T18:30:22Z", "2020-12-31T00:00:0" \o N \o "Z">>)
    [] h = "hash" -> Same(<<"d6a770ba38583ed4bb4525bd96e50461655d2758", "0" \o N>>)
    [] h = "creators" -> Party(People(N) \o Tools(N), "Creator", "CreatorType")
    [] h = "annotator" -> Party(People(N) \o Tools(N), "Annotator", "AnnotatorType")
    [] h = "reviewer" -> Party(People(N) \o Tools(N), "Reviewer", "ReviewerType")
    [] h = "supplier" -> Append(Party(People(N), "Supplier", "SupplierType"), Lit("NOASSERTION", [Supplier |-> "NOASSERTION"]))
    [] h = "originator" -> Append(Party(People(N), "Originator", "OriginatorType"), Lit("NOASSERTION", [Originator |-> "NOASSERTION"]))
    [] h = "location" -> NoneOr(Same(<<"http://x.org/p" \o N \o ".tgz", "git+https://x.org/p.git@v" \o N \o "#src">>))
    [] h \in {"uri", "uris"} -> Same(<<"http://x.org/h" \o N, "https://x.org:8080/a/b?c=d&e=" \o N \o "#f">>) \o <<Lit("http://x.org/?a&amp;b=" \o N, "http://x.org/?a&b=" \o N)>>
                                \o <<Res("http://x.org/r" \o N, "http://x.org/r" \o N)>>
    [] h = "resource" -> <<Res("http://x.org/r" \o N, "http://x.org/r" \o N), Res("http://x.org/r/s#t" \o N, "http://x.org/r/s#t" \o N)>>
    [] h = "analyzed" -> <<Lit("true", TRUE), Lit("false", FALSE)>>
    [] h \in {"licence", "licences"} -> NoneOr(<<Res("http://spdx.org/licenses/MIT", "MIT"), Res("http://spdx.org/licenses/GPL-2.0-only", "GPL-2.0-only")>>)
    [] h = "filetypes" -> ResMap(FileTypes, LAMBDA x : "fileType_" \o x, LAMBDA x : x)
    [] h = "algorithm" -> ResMap(ChecksumAlgos(v), LAMBDA x : "checksumAlgorithm_" \o AlgoTerm(x), LAMBDA x : x)
    [] h = "reltype" -> ResMap(RelTypes(v), LAMBDA x : "relationshipType_" \o x, LAMBDA x : x)
    [] h = "anntype" -> ResMap(<<"other", "review">>, LAMBDA x : "annotationType_" \o x, LAMBDA x : IF x = "other" THEN "OTHER" ELSE "REVIEW")
    [] h = "category" -> ResMap(<<"security", "packageManager", "persistentId", "other">>, LAMBDA x : "referenceCategory_" \o x,
                                LAMBDA x : CASE x = "security" -> "SECURITY" [] x = "packageManager" -> "PACKAGE-MANAGER" [] x = "persistentId" -> "PERSISTENT-ID" [] x = "other" -> "OTHER")
    [] h = "purpose" -> ResMap(Purposes, LAMBDA x : "packagePurpose_" \o x[1], LAMBDA x : x[2])
    [] h = "id" -> <<>>
    [] h = "docref" -> <<Lit("DocumentRef-e" \o N, "e" \o N)>>
    [] h = "number" -> <<Lit("1", 1), Lit("31" \o N, 310 + (CHOOSE i \in 0..9 : ToString(i) = N))>>
    [] h = "related" -> <<Res(Terms \o "none", [SpecialID |-> "NONE"]), Res(Terms \o "noassertion", [SpecialID |-> "NOASSERTION"]),
                          Res(NsUri \o "#DocumentRef-e1:SPDXRef-a", [DocumentRefID |-> "e1", ElementRefID |-> "a"])>>
    [] OTHER -> <<>>

(* --- graphs ----------------------------------------------------------------- *)
St(s, p, val) == [s |-> s, p |-> p, k |-> val.k, o |-> val.o, m |-> val.m]
Edge(s, p, o) == [s |-> s, p |-> p, k |-> "node", o |-> o, m |-> ""]
NodeOf(G, id) == G.nodes[CHOOSE i \in DOMAIN G.nodes : G.nodes[i].id = id]
KindOf(G, id) == NodeOf(G, id).kind
Ids(G) == {G.nodes[i].id : i \in DOMAIN G.nodes}
OfKind(G, kinds) == SelectSeq(G.nodes, LAMBDA n : n.kind \in kinds)
SameStatement(a, b) == a.s = b.s /\ a.p = b.p /\ a.k = b.k /\ a.o = b.o
HasStatement(G, st) == \E i \in DOMAIN G.st : SameStatement(G.st[i], st)
About(G, id) == SelectSeq(G.st, LAMBDA t : t.s = id)
Into(G, id) == SelectSeq(G.st, LAMBDA t : t.k = "node" /\ t.o = id)
RECURSIVE Closure(_, _)
Closure(G, S) == LET next == S \cup {G.st[i].o : i \in {j \in DOMAIN G.st : G.st[j].k = "node" /\ G.st[j].s \in S}}
                 IN IF next = S THEN S ELSE Closure(G, next)
\* reading starts at the document and at the snippets
Starts(G) == {G.nodes[i].id : i \in {j \in DOMAIN G.nodes : G.nodes[j].kind \in {"doc", "snip"}}}
AllReached(G) == Closure(G, Starts(G)) = Ids(G)

(* --- the document a graph stands for ----------------------------------------- *)
RECURSIVE Record(_, _, _)
Effect(G, n, rec, st) ==
  LET r == PropOf(n.kind, st.p)
      sub == Record(G, st.o, n)
  IN CASE r.h \in {"text", "version", "version number", "date", "hash", "supplier", "originator", "location", "uri", "resource", "analyzed", "algorithm", "reltype",
                   "anntype", "category", "purpose", "id", "docref", "number", "annotator"} ->
            LET one == Put(rec, r.g, st.m) IN IF r.h = "analyzed" THEN Put(one, "IsFilesAnalyzedTagPresent", TRUE) ELSE one
       [] r.h = "reviewer" -> st.m @@ rec
       [] r.h \in {"texts", "creators", "uris", "filetypes"} -> AppendTo(rec, r.g, st.m)
       [] r.h = "licence" -> Put(rec, r.g, IF st.k = "node" THEN Local(NodeOf(G, st.o)) ELSE st.m)
       [] r.h = "licences" -> AppendTo(rec, r.g, IF st.k = "node" THEN Local(NodeOf(G, st.o)) ELSE st.m)
       [] r.h \in {"sub ci", "sub pvc", "sub ck", "sub ptr"} -> Put(rec, r.g, sub)
       [] r.h \in {"subs edr", "subs rev", "subs ck", "subs er", "subs aop", "ranges", "files"} -> AppendTo(rec, r.g, sub)
       [] r.h = "deps" -> AppendTo(rec, r.g, st.o)
       [] r.h = "from file" -> Put(rec, r.g, st.o)
       [] r.h = "related" -> Put(rec, r.g, IF st.k = "node" THEN [ElementRefID |-> st.o] ELSE st.m)
       [] OTHER -> rec
RECURSIVE Effects(_, _, _, _)
Effects(G, n, rec, sts) == IF sts = <<>> THEN rec ELSE Effects(G, n, Effect(G, n, rec, sts[1]), Tail(sts))
FromFile(G, snip) == LET q == SelectSeq(About(G, snip), LAMBDA t : t.p = "spdx:snippetFromFile") IN q[1].o
SnippetsOf(G, file) == SelectSeq(OfKind(G, {"snip"}), LAMBDA n : FromFile(G, n.id) = file)
Record(G, id, from) ==
  LET n == NodeOf(G, id)
      start == CASE n.kind = "pkg" -> [PackageSPDXIdentifier |-> id, FilesAnalyzed |-> TRUE] [] n.kind = "file" -> ("FileSPDXIdentifier" :> id)
                 [] n.kind = "snip" -> ("SnippetSPDXIdentifier" :> id)
                 [] n.kind = "aop" /\ n.name = "iri" -> ("URI" :> UriOf(n))
                 [] OTHER -> Nil
      rec == Effects(G, n, start, About(G, id))
  IN CASE n.kind = "file" ->
            LET q == SnippetsOf(G, id)
            IN IF q = <<>> THEN rec ELSE Put(rec, "Snippets", [s \in {q[i].id : i \in DOMAIN q} |-> Record(G, s, n)])
       [] n.kind = "range" -> [e \in {"StartPointer", "EndPointer"} |-> Put(rec[e], "FileSPDXIdentifier", FromFile(G, from.id))]
       [] OTHER -> rec

\* the statements with a property of the kind, each with its own meaning
Each(G, h, Op(_)) == LET q == SelectSeq(G.st, LAMBDA t : t.k = "node" /\ PropOf(KindOf(G, t.s), t.p).h = h) IN [i \in DOMAIN q |-> Op(q[i])]
Records(G, q) == [i \in DOMAIN q |-> Record(G, q[i].id, Nil)]
Owned(G) == {G.st[i].o : i \in {j \in DOMAIN G.st : G.st[j].p = "spdx:hasFile"}}
Meaning(G) ==
  LET doc == Record(G, "DOCUMENT", Nil)
  IN ("SPDXIdentifier" :> "DOCUMENT") @@ ("DocumentNamespace" :> NsUri)
     @@ ("Packages" :> Records(G, OfKind(G, {"pkg"})))
     @@ ("Files" :> Records(G, SelectSeq(OfKind(G, {"file"}), LAMBDA n : n.id \notin Owned(G))))
     @@ ("OtherLicenses" :> Records(G, OfKind(G, {"lic"})))
     @@ ("Relationships" :> Each(G, "elem rel", LAMBDA t : Put(Record(G, t.o, Nil), "RefA", [ElementRefID |-> t.s])))
     @@ ("Annotations" :> Each(G, "elem ann", LAMBDA t : Put(Record(G, t.o, Nil), "AnnotationSPDXIdentifier", [ElementRefID |-> t.s])))
     @@ doc
=============================================================================
