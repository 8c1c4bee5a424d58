-------------------------------- MODULE TVCut --------------------------------
(* A document whose text ends anywhere: the text is cut at every character,   *)
(* lexed by TVLexer and parsed by TVParser.  What is left is an error or the  *)
(* document its complete tags denote.                                         *)
EXTENDS TVText, Emit
CONSTANTS Vers, Doc
VARIABLES v, cut

NL == "\n"
Base(w) ==
  "SPDXVersion: " \o VerName(w) \o NL \o "SPDXID: SPDXRef-DOCUMENT" \o NL \o
  "DocumentComment: <text>a" \o NL \o "PackageName: b</text>" \o NL \o
  "ExternalDocumentRef: DocumentRef-x http://x.org/d SHA1: ab" \o NL \o
  "Creator: Tool: t" \o NL \o NL \o "# c: d" \o NL
DocText(w) ==
  CASE Doc = 1 -> Base(w) \o
         "FileName: ./u.c" \o NL \o "SPDXID: SPDXRef-u" \o NL \o "FileChecksum: SHA1: aa" \o NL \o
         "Relationship: SPDXRef-a CONTAINS SPDXRef-u" \o NL \o "RelationshipComment: <text>x" \o NL \o "y</text>" \o NL \o
         "SnippetSPDXID: SPDXRef-s" \o NL \o "SnippetByteRange: 12:34" \o NL \o "FileName: ./w.c" \o NL \o "SPDXID: SPDXRef-w" \o NL
    [] Doc = 2 -> Base(w) \o
         "PackageName: p" \o NL \o "SPDXID: SPDXRef-p" \o NL \o "FilesAnalyzed: false" \o NL \o
         "ExternalRef: OTHER a b" \o NL \o "ExternalRefComment: <text>c" \o NL \o "</text>" \o NL \o
         "FileName: ./f" \o NL \o "SPDXID: SPDXRef-f" \o NL \o "PackageName: q" \o NL \o "SPDXID: SPDXRef-q" \o NL \o
         "PackageSupplier: Person: A" \o NL \o "LicenseID: LicenseRef-1" \o NL \o "ExtractedText: <text>q</text>" \o NL \o
         "Reviewer: Tool: r" \o NL

\* a boolean cut in the middle: nothing is said about what it means
Unspecified(text) ==
  LET p == Pairs(text)
  IN ~IsErr(p) /\ \E i \in DOMAIN p.ok : p.ok[i][1] = "FilesAnalyzed" /\ p.ok[i][2] \notin {"true", "false"}

Init == v \in Vers /\ cut = 0
Next == /\ cut < Len(DocText(v))
        /\ cut' = cut + 1 /\ UNCHANGED v
        /\ Unspecified(SubSeq(DocText(v), 1, cut')) \/ Emit([k |-> "tvtext", v |-> v, label |-> "cut", text |-> SubSeq(DocText(v), 1, cut'),
                 want |-> WantText(v, SubSeq(DocText(v), 1, cut'))])
Spec == Init /\ [][Next]_<<v, cut>>
Whole == cut = Len(DocText(v)) => "doc" \in DOMAIN WantText(v, DocText(v))
=============================================================================
