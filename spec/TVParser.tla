------------------------------ MODULE TVParser ------------------------------
(* Reading a tag-value document: the state is the document built so far and  *)
(* what is open; Step(S, tag, val) is the effect of one more pair.           *)
(* Elements are kept in flat lists; fown[i] is the index of the package that *)
(* owns file i (0: unpackaged), sown[i] the file that owns snippet i.        *)
EXTENDS SpdxModel

ParseInit(v) ==
  [v |-> v, st |-> "start", d |-> Nil, ci |-> Nil, edrs |-> <<>>, pkgs |-> <<>>,
   files |-> <<>>, fown |-> <<>>, snips |-> <<>>, sown |-> <<>>, lics |-> <<>>, rlns |-> <<>>,
   anns |-> <<>>, revs |-> <<>>, xr |-> FALSE, ao |-> FALSE]
Bad(S) == [S EXCEPT !.st = "bad"]

(* --- structured values --------------------------------------------------- *)
ActorOf(val, types) ==
  LET s == SubsOf(val)
  IN IF IsErr(s) \/ ~(\E i \in DOMAIN types : types[i] = s.ok[1]) THEN Err ELSE s

PartyOf(val, name, type) ==           \* supplier / originator
  IF val = "NOASSERTION" THEN Ok(name :> val)
  ELSE LET a == ActorOf(val, PartyTypes)
       IN IF IsErr(a) THEN Err ELSE Ok((name :> a.ok[2]) @@ (type :> a.ok[1]))

ChecksumOf(v, val) ==
  LET s == SubsOf(val)
  IN IF IsErr(s) \/ ~(\E i \in DOMAIN ChecksumAlgos(v) : ChecksumAlgos(v)[i] = s.ok[1]) THEN Err
     ELSE Ok([Algorithm |-> s.ok[1], Value |-> s.ok[2]])

PvcOf(val) ==
  LET p == SplitFirst(val, "(excludes:")
  IN IF Len(p) = 1 THEN Ok([Value |-> val])
     ELSE LET inner == BeforeLast(p[2], ")")
              fs == SplitAll(inner, ",")
          IN Ok([Value |-> Trim(p[1]), ExcludedFiles |-> [i \in DOMAIN fs |-> Trim(fs[i])]])

ExtRefOf(val) ==
  LET w == Words(val)
  IN IF Len(w) # 3 THEN Err ELSE Ok([Category |-> w[1], RefType |-> w[2], Locator |-> w[3]])

EdrOf(val) ==
  LET w == Words(val)
      alg == IF Len(w) = 4 THEN (IF EndsWith(w[3], ":") THEN Ok(<<SubSeq(w[3], 1, Len(w[3]) - 1), w[4]>>) ELSE Err)
             ELSE IF Len(w) = 3 THEN (LET p == SplitFirst(w[3], ":") IN IF Len(p) = 2 THEN Ok(p) ELSE Err)
             ELSE Err
  IN IF IsErr(alg) THEN Err
     ELSE IF ~StartsWith(w[1], "DocumentRef-") \/ w[1] = "DocumentRef-" THEN Err
     ELSE Ok([DocumentRefID |-> TrimPrefix(w[1], "DocumentRef-"), URI |-> w[2],
              Checksum |-> [Algorithm |-> alg.ok[1], Value |-> alg.ok[2]]])

RlnOf(v, val) ==
  LET w == Words(val)
  IN IF Len(w) # 3 THEN Err
     ELSE LET a == DocElementOf(w[1])
              b == IF v >= 22 /\ w[3] \in {"NONE", "NOASSERTION"} THEN Ok([SpecialID |-> w[3]])
                   ELSE DocElementOf(w[3])
          IN IF IsErr(a) \/ IsErr(b) THEN Err
             ELSE Ok([RefA |-> a.ok, RefB |-> b.ok, Relationship |-> w[2]])

RangeOf(val, key) ==
  LET s == SubsOf(val)
  IN IF IsErr(s) \/ ~IsNumber(s.ok[1]) \/ ~IsNumber(s.ok[2]) THEN Err
     ELSE Ok([StartPointer |-> (key :> ToNat(s.ok[1])), EndPointer |-> (key :> ToNat(s.ok[2]))])

\* the value a tag of the given kind denotes
ParseVal(k, v, val) ==
  CASE k \in {"version", "line", "text", "name", "lines", "texts"} -> Ok(val)
    [] k = "id" -> ElementIdOf(val)
    [] k = "docelem" -> DocElementOf(val)
    [] k = "fromfile" -> LET r == DocElementOf(val) IN IF IsErr(r) THEN Err ELSE Ok(r.ok.ElementRefID)
    [] k = "creators" -> (LET a == ActorOf(val, ActorTypes)
                          IN IF IsErr(a) THEN Err ELSE Ok([Creator |-> a.ok[2], CreatorType |-> a.ok[1]]))
    [] k = "annotator" -> (LET a == ActorOf(val, ActorTypes)
                          IN IF IsErr(a) THEN Err ELSE Ok([Annotator |-> a.ok[2], AnnotatorType |-> a.ok[1]]))
    [] k = "supplier" -> PartyOf(val, "Supplier", "SupplierType")
    [] k = "originator" -> PartyOf(val, "Originator", "OriginatorType")
    [] k = "checksums" -> ChecksumOf(v, val)
    [] k = "pvc" -> PvcOf(val)
    [] k = "extrefs" -> ExtRefOf(val)
    [] k = "aops" -> Ok([Name |-> val])
    [] k = "ranges" -> RangeOf(val, "Offset")

ListKinds == {"lines", "texts", "creators", "checksums", "extrefs", "aops", "ranges"}

\* element e, of the given sort, after tag = val
SetField(ent, v, e, tag, val) ==
  IF ~HasTag(ent, v, tag) THEN Err
  ELSE LET f == FieldByTag(ent, tag)
       IN IF f.k = "analyzed"
          THEN Ok(Put(Put(e, "IsFilesAnalyzedTagPresent", TRUE), "FilesAnalyzed", val = "true"))
          ELSE LET x == ParseVal(f.k, v, val)
               IN IF IsErr(x) THEN Err
                  ELSE IF f.k \in ListKinds THEN Ok(AppendTo(e, f.g, x.ok))
                  ELSE Ok(Put(e, f.g, x.ok))

SetLast(q, x) == [q EXCEPT ![Len(q)] = x]
WithLast(S, g, r) == IF IsErr(r) THEN Bad(S) ELSE [S EXCEPT ![g] = SetLast(@, r.ok)]

(* --- sections -------------------------------------------------------------- *)
DocTags == {"SPDXVersion", "DataLicense", "SPDXID", "DocumentName", "DocumentNamespace",
            "DocumentComment", "ExternalDocumentRef"}
Opens(st) ==
  CASE st \in {"start", "ci", "pkg"} -> {"PackageName", "FileName", "LicenseID", "Reviewer"}
    [] st \in {"file", "snip"} -> {"PackageName", "FileName", "SnippetSPDXID", "LicenseID", "Reviewer"}
    [] st = "lic" -> {"LicenseID", "Reviewer"}
    [] st = "rev" -> {"Reviewer"}

LastPkgOk(S) == S.pkgs = <<>> \/ Has(Last(S.pkgs), "PackageSPDXIdentifier")
LastFileOk(S) == S.files = <<>> \/ Has(Last(S.files), "FileSPDXIdentifier")

StepDoc(S, tag, val) ==
  IF tag = "ExternalDocumentRef"
  THEN LET x == EdrOf(val) IN IF IsErr(x) THEN Bad(S) ELSE [S EXCEPT !.edrs = Append(@, x.ok)]
  ELSE LET r == SetField("doc", S.v, S.d, tag, val) IN IF IsErr(r) THEN Bad(S) ELSE [S EXCEPT !.d = r.ok]

StepOpen(S, tag, val) ==
  CASE tag = "PackageName" ->
         IF LastPkgOk(S) /\ LastFileOk(S)
         THEN [S EXCEPT !.st = "pkg",
                 !.pkgs = Append(@, ("PackageName" :> val) @@ ("FilesAnalyzed" :> TRUE))]
         ELSE Bad(S)
    [] tag = "FileName" ->
         IF LastFileOk(S)
         THEN [S EXCEPT !.st = "file", !.files = Append(@, "FileName" :> val),
                        !.fown = Append(@, Len(S.pkgs))]
         ELSE Bad(S)
    [] tag = "SnippetSPDXID" ->
         LET id == ElementIdOf(val)
         IN IF LastFileOk(S) /\ ~IsErr(id)
            THEN [S EXCEPT !.st = "snip", !.snips = Append(@, "SnippetSPDXIdentifier" :> id.ok),
                           !.sown = Append(@, Len(S.files))]
            ELSE Bad(S)
    [] tag = "LicenseID" -> [S EXCEPT !.st = "lic", !.lics = Append(@, "LicenseIdentifier" :> val)]
    [] tag = "Reviewer" ->
         LET a == ActorOf(val, ActorTypes)
         IN IF IsErr(a) THEN Bad(S)
            ELSE [S EXCEPT !.st = "rev",
                    !.revs = Append(@, ("Reviewer" :> a.ok[2]) @@ ("ReviewerType" :> a.ok[1]))]

\* relationships and annotations may come anywhere and do not end a section
FloatTags == {"Relationship", "RelationshipComment", "Annotator", "AnnotationDate",
              "AnnotationType", "SPDXREF", "AnnotationComment"}
StepFloat(S, tag, val) ==
  CASE tag = "Relationship" ->
         (LET r == RlnOf(S.v, val) IN IF IsErr(r) THEN Bad(S) ELSE [S EXCEPT !.rlns = Append(@, r.ok)])
    [] tag = "RelationshipComment" ->
         IF S.rlns = <<>> THEN Bad(S) ELSE WithLast(S, "rlns", Ok(Put(Last(S.rlns), tag, val)))
    [] tag = "Annotator" ->
         (LET r == SetField("ann", S.v, Nil, tag, val)
          IN IF IsErr(r) THEN Bad(S) ELSE [S EXCEPT !.anns = Append(@, r.ok)])
    [] OTHER ->
         IF S.anns = <<>> THEN Bad(S)
         ELSE WithLast(S, "anns", SetField("ann", S.v, Last(S.anns), tag, val))

\* a project detail or reference comment belongs to the entry opened just before
StepDetail(S, tag, val) ==
  CASE tag = "ExternalRefComment" ->
         IF S.st = "pkg" /\ S.xr
         THEN LET p == Last(S.pkgs)
                  xs == p.PackageExternalReferences
              IN WithLast(S, "pkgs", Ok(Put(p, "PackageExternalReferences",
                            SetLast(xs, Put(Last(xs), "ExternalRefComment", val)))))
         ELSE Bad(S)
    [] OTHER ->
         IF S.st = "file" /\ S.ao
         THEN LET f == Last(S.files)
                  as == f.ArtifactOfProjects
                  g == IF tag = "ArtifactOfProjectHomePage" THEN "HomePage" ELSE "URI"
              IN WithLast(S, "files", Ok(Put(f, "ArtifactOfProjects", SetLast(as, Put(Last(as), g, val)))))
         ELSE Bad(S)
DetailTags == {"ExternalRefComment", "ArtifactOfProjectHomePage", "ArtifactOfProjectURI"}

StepIn(S, tag, val) ==
  CASE S.st = "ci" ->
         IF tag \in (IF S.v = 21 THEN {"ExternalDocumentRef"} ELSE {"DocumentComment", "ExternalDocumentRef"})
         THEN StepDoc([S EXCEPT !.st = "start"], tag, val)
         ELSE (LET r == SetField("ci", S.v, S.ci, tag, val)
               IN IF IsErr(r) THEN Bad(S) ELSE [S EXCEPT !.ci = r.ok])
    [] S.st = "pkg" -> WithLast(S, "pkgs", SetField("pkg", S.v, Last(S.pkgs), tag, val))
    [] S.st = "file" -> WithLast(S, "files", SetField("file", S.v, Last(S.files), tag, val))
    [] S.st = "snip" ->
         IF tag = "SnippetLineRange"
         THEN (LET r == RangeOf(val, "LineNumber")
               IN IF IsErr(r) THEN Bad(S) ELSE WithLast(S, "snips", Ok(AppendTo(Last(S.snips), "Ranges", r.ok))))
         ELSE WithLast(S, "snips", SetField("snip", S.v, Last(S.snips), tag, val))
    [] S.st = "lic" -> WithLast(S, "lics", SetField("lic", S.v, Last(S.lics), tag, val))
    [] S.st = "rev" -> WithLast(S, "revs", SetField("rev", S.v, Last(S.revs), tag, val))

Step(S, tag, val) ==
  IF S.st = "bad" THEN S
  ELSE IF S.st = "start" /\ tag \in DocTags THEN StepDoc(S, tag, val)
  ELSE LET T == [S EXCEPT !.st = IF @ = "start" THEN "ci" ELSE @]
           R == CASE tag \in FloatTags -> StepFloat(T, tag, val)
                  [] tag \in Opens(T.st) -> StepOpen(T, tag, val)
                  [] tag \in DetailTags -> StepDetail(T, tag, val)
                  [] OTHER -> StepIn(T, tag, val)
       IN [R EXCEPT !.xr = (R.st = "pkg" /\ tag = "ExternalRef"),
                    !.ao = (R.st = "file" /\ (tag = "ArtifactOfProjectName"
                              \/ (S.ao /\ tag \in {"ArtifactOfProjectHomePage", "ArtifactOfProjectURI"})))]

RECURSIVE StepAll(_, _)
StepAll(S, ps) == IF ps = <<>> THEN S ELSE StepAll(Step(S, ps[1][1], ps[1][2]), Tail(ps))

Accepted(S) == S.st # "bad" /\ LastPkgOk(S) /\ LastFileOk(S)

(* --- the document --------------------------------------------------------- *)
\* the sub-sequence of q at the positions where Test holds
SelectIdx(q, Test(_)) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(q) THEN <<>>
               ELSE IF Test(i) THEN <<i>> \o go(i + 1) ELSE go(i + 1)
  IN go(1)

SnipMap(S, fi) ==
  LET is == SelectIdx(S.snips, LAMBDA i : S.sown[i] = fi)
  IN [id \in {S.snips[is[j]].SnippetSPDXIdentifier : j \in DOMAIN is} |->
        S.snips[CHOOSE i \in {is[j] : j \in DOMAIN is} : S.snips[i].SnippetSPDXIdentifier = id]]

FileVal(S, i) == IF \E j \in DOMAIN S.sown : S.sown[j] = i
                 THEN Put(S.files[i], "Snippets", SnipMap(S, i)) ELSE S.files[i]
FilesOwned(S, p) == LET is == SelectIdx(S.files, LAMBDA i : S.fown[i] = p)
                    IN [j \in DOMAIN is |-> FileVal(S, is[j])]
PkgVal(S, p) == LET fs == FilesOwned(S, p)
                IN IF fs = <<>> THEN S.pkgs[p] ELSE Put(S.pkgs[p], "Files", fs)
RevVal(r) == r

PutList(d, g, q) == IF q = <<>> THEN d ELSE Put(d, g, q)
DocVal(S) ==
  LET d1 == IF S.ci = Nil THEN S.d ELSE Put(S.d, "CreationInfo", S.ci)
      d2 == PutList(d1, "ExternalDocumentReferences", S.edrs)
      d3 == PutList(d2, "Packages", [p \in DOMAIN S.pkgs |-> PkgVal(S, p)])
      d4 == PutList(d3, "Files", FilesOwned(S, 0))
      d5 == PutList(d4, "OtherLicenses", S.lics)
      d6 == PutList(d5, "Relationships", S.rlns)
      d7 == PutList(d6, "Annotations", S.anns)
  IN PutList(d7, "Reviews", S.revs)

(* --- design facts, checked as invariants by the generators ---------------- *)
TypeOK(S) ==
  /\ S.st \in {"start", "ci", "pkg", "file", "snip", "lic", "rev", "bad"}
  /\ Len(S.fown) = Len(S.files) /\ Len(S.sown) = Len(S.snips)
  /\ S.st = "pkg" => S.pkgs # <<>>
  /\ S.st = "file" => S.files # <<>>
  /\ S.st = "snip" => S.snips # <<>>
  /\ S.xr => S.st = "pkg" /\ Has(Last(S.pkgs), "PackageExternalReferences")
  /\ S.ao => S.st = "file" /\ Has(Last(S.files), "ArtifactOfProjects")
\* every owner was open before what it owns, and ownership is monotone
OwnersOK(S) ==
  /\ \A i \in DOMAIN S.fown : S.fown[i] \in 0..Len(S.pkgs)
  /\ \A i \in DOMAIN S.sown : S.sown[i] \in 1..Len(S.files)
  /\ \A i, j \in DOMAIN S.fown : i < j => S.fown[i] <= S.fown[j]
  /\ \A i, j \in DOMAIN S.sown : i < j => S.sown[i] <= S.sown[j]
\* only the last package and the last file may still lack an identifier
IdsOK(S) == S.st # "bad" =>
  /\ \A i \in 1..(Len(S.pkgs) - 1) : Has(S.pkgs[i], "PackageSPDXIdentifier")
  /\ \A i \in 1..(Len(S.files) - 1) : Has(S.files[i], "FileSPDXIdentifier")
=============================================================================
