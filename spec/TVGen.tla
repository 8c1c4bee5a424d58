-------------------------------- MODULE TVGen --------------------------------
(* Tag-value documents, one tag per action.                                   *)
(*  exhaustive (SIM = FALSE): every reachable control state of the parser x   *)
(*     every tag of the format x every class of value, good and malformed;    *)
(*     each transition becomes a test, once cut off right there and once with *)
(*     the identifiers still missing supplied, so that the tag itself decides *)
(*  SIM = TRUE: random documents of MaxLen tags with an occasional error      *)
EXTENDS TVParser, Emit
CONSTANTS Vers, MaxLen, SIM, ErrRate,
          Alike   \* the values of different tags are the same, as far as they can be
VARIABLES S, hist

M == ToString(Len(hist))
N == IF Alike THEN "" ELSE M

AllTags(v) ==
  UNION {{Fields(e)[i].t : i \in {j \in DOMAIN Fields(e) : Fields(e)[j].v <= v}} :
           e \in {"doc", "ci", "pkg", "file", "snip", "lic", "rln", "ann", "rev"}}
  \cup {"ExternalDocumentRef", "SnippetLineRange", "ExternalRefComment",
        "ArtifactOfProjectHomePage", "ArtifactOfProjectURI"}
\* tags of later versions or of no version at all
ForeignTags(v) == (AllTags(23) \ AllTags(v)) \cup {"Bogus", "packagename", "PackageNam"}

KindOfTag(st, tag) ==
  CASE tag \in {"ExternalRefComment", "RelationshipComment"} -> "text"
    [] tag \in {"ArtifactOfProjectHomePage", "ArtifactOfProjectURI"} -> "line"
    [] tag = "ExternalDocumentRef" -> "edr"
    [] tag = "SnippetLineRange" -> "ranges"
    [] tag = "SPDXID" -> "id"
    [] tag = "LicenseID" -> "licid"
    [] tag = "FileName" -> "path"
    [] OTHER -> LET e == CHOOSE e \in {"doc", "ci", "pkg", "file", "snip", "lic", "rln", "ann", "rev"} :
                              \E i \in DOMAIN Fields(e) : Fields(e)[i].t = tag
                IN FieldByTag(e, tag).k

Lines1 == IF Alike THEN <<"same", "NOASSERTION">> ELSE <<"v" \o N, "a: b #" \o N, "https://e.org/x?y=" \o N \o "#z", "NOASSERTION", "{{U}} " \o N,
            "DocumentRef-x:SPDXRef-" \o N, "<b>" \o N \o "</b> & (c)">>
Texts1 == IF Alike THEN <<"same", "NOASSERTION">> ELSE <<"t" \o N, "l" \o N \o "\nPackageName: evil\n\n# no comment\n  end ", "\n\nx" \o N \o "\n", "", "{{U}}\n" \o N>>
AlgoVals(v) == [i \in DOMAIN ChecksumAlgos(v) |-> ChecksumAlgos(v)[i] \o ": " \o "c0ffee" \o N]

Good(k, v) ==
  CASE k = "version" -> <<VerName(v)>>
    [] k \in {"line", "lines", "aops"} -> Lines1
    [] k \in {"text", "texts"} -> Texts1 \o Lines1
    [] k = "name" -> IF Alike THEN Lines1 ELSE <<"n" \o N, "n: #" \o N, "{{U}}" \o N>>
    [] k = "path" -> <<"./d/f" \o N \o ".c", "./a b/{{U}}: #" \o N>>
    [] k = "licid" -> <<"LicenseRef-" \o N>>
    [] k = "id" -> <<"SPDXRef-e" \o M, "SPDXRef-SPDXRef-" \o M, "SPDXRef-a.b-" \o M>>
    [] k = "docelem" -> <<"SPDXRef-e" \o N, "DocumentRef-d" \o N \o ":SPDXRef-e" \o N>>
    [] k = "fromfile" -> <<"SPDXRef-e" \o N, "DocumentRef-d" \o N \o ":SPDXRef-e" \o N>>
    [] k \in {"creators", "annotator", "reviewer"} ->
         <<"Person: A" \o N, "Organization: O: #" \o N, "Tool: t-{{U}}" \o N, "Person:  B (b@c.d)" \o N, "Person: C" \o N \o " ()", "Organization: (" \o N \o ")">>
    [] k \in {"supplier", "originator"} -> <<"NOASSERTION", "Person: A " \o N \o " (a@b.c)", "Organization: X: Y" \o N, "Organization: Z" \o N \o " ()", "Person: (" \o N \o ")">>
    [] k = "analyzed" -> <<"true", "false">>
    [] k = "checksums" -> AlgoVals(v) \o <<"SHA1:dead" \o N>>
    [] k = "pvc" -> <<"abc" \o N, "abc" \o N \o " (excludes: ./p.spdx)", "abc" \o N \o " (excludes: ./p (1).spdx)", "abc" \o N \o " (excludes: ./p.spdx, ./q" \o N \o ")">>
    [] k = "extrefs" -> <<"SECURITY cpe23Type cpe:2.3:a:x:" \o N, "PACKAGE-MANAGER purl pkg:npm/x@" \o N,
                          "OTHER  http://x.org/" \o N \o "#f  acme:" \o N, "PERSISTENT-ID swh swh:1:cnt:" \o N>>
    [] k = "ranges" -> <<"1:2", "310:420", "7 : 9">>
    [] k = "edr" -> <<"DocumentRef-d" \o N \o " http://x.org/doc#a SHA1: d6a7" \o N,
                      "DocumentRef-d.e-" \o N \o " http://x.org/doc SHA256:d6a7" \o N>>
    [] k = "rln" -> <<"SPDXRef-a" \o N \o " CONTAINS SPDXRef-b" \o N,
                      "DocumentRef-x:SPDXRef-a" \o N \o " AMENDS DocumentRef-y:SPDXRef-b",
                      "SPDXRef-DOCUMENT  DESCRIBES  SPDXRef-c" \o N,
                      "SPDXRef-DOCUMENT describes SPDXRef-c" \o N, "SPDXRef-b Contained_By-x SPDXRef-A" \o N>>
                    \o (IF v >= 22 THEN <<"SPDXRef-a" \o N \o " DEPENDS_ON NONE", "SPDXRef-a" \o N \o " CONTAINS NOASSERTION">>
                        ELSE <<>>)

Malformed(k, v) ==
  CASE k = "id" -> <<"e1", "SPDXRef-", "SPDXRef-a:b", "DocumentRef-d:SPDXRef-e", "", "spdxref-a">>
    [] k \in {"docelem", "fromfile"} -> <<"e1", "SPDXRef-", "SPDXRef-a:b", "DocumentRef-:SPDXRef-e", "DocumentRef-d:e",
                          "DocumentRef-d:SPDXRef-e:f", "DocumentRef-d", "", "NOASSERTION", "DocumentRef-d:SPDXRef-">>
    [] k \in {"creators", "annotator", "reviewer"} -> <<"Person A", "Robot: R2", "", "person: x", ": x">>
    [] k \in {"supplier", "originator"} -> <<"Person A", "Tool: t", "", "NONE", "ACME Inc">>
    [] k = "checksums" -> <<"SHA1 abc", "CRC32: abc", "", "sha1: abc">>
         \o SelectSeq([i \in DOMAIN AllAlgos |-> AllAlgos[i] \o ": abc"],
                      LAMBDA s : IsErr(ChecksumOf(v, s)))
    [] k = "extrefs" -> <<"SECURITY cpe23Type", "", "SECURITY cpe23Type a b", "OTHER">>
    [] k = "ranges" -> <<"1-2", "a:b", "1:b", "", "1:", ":2", "1.5:2", "0x1:2", "1:0x20", "1:2_0", "1:1e3", "1:2:3", "1: 2 3", "1:99999999999999999999", "one:two", "1:0b11", "1:2h">>
    [] k = "edr" -> <<"DocumentRef-d http://x SHA1 abc", "d http://x SHA1: abc", "DocumentRef- http://x SHA1: abc",
                      "DocumentRef-d http://x", "", "DocumentRef-d http://x SHA1: abc extra", "DocumentRef-d http://x abc">>
    [] k = "rln" -> <<"SPDXRef-a CONTAINS", "SPDXRef-a CONTAINS SPDXRef-b SPDXRef-c", "", "a CONTAINS SPDXRef-b",
                      "SPDXRef-a CONTAINS b", "NONE CONTAINS SPDXRef-b", "SPDXRef-a:x CONTAINS SPDXRef-b",
                      "SPDXRef-a CONTAINS DocumentRef-:SPDXRef-b", "SPDXRef- CONTAINS SPDXRef-b">>
                    \o (IF v = 21 THEN <<"SPDXRef-a CONTAINS NONE", "SPDXRef-a CONTAINS NOASSERTION">> ELSE <<>>)
    [] OTHER -> <<>>

\* may this tag still be given to the element that is open?
Current == CASE S.st \in {"start", "ci"} -> <<"ci", S.ci>> [] S.st = "pkg" -> <<"pkg", Last(S.pkgs)>>
             [] S.st = "file" -> <<"file", Last(S.files)>> [] S.st = "snip" -> <<"snip", Last(S.snips)>>
             [] S.st = "lic" -> <<"lic", Last(S.lics)>> [] S.st = "rev" -> <<"rev", Last(S.revs)>>
             [] OTHER -> <<"none", Nil>>
GivenIn(ent, e, tag) == HasTag(ent, 23, tag)
                        /\ Has(e, IF tag = "FilesAnalyzed" THEN "IsFilesAnalyzedTagPresent" ELSE FieldByTag(ent, tag).g)
                        /\ FieldByTag(ent, tag).k \notin ListKinds
Again(tag) ==
  \/ tag # "SPDXID" /\ tag \notin Opens(S.st) /\ GivenIn(Current[1], Current[2], tag)
  \/ tag # "SPDXID" /\ S.st = "start" /\ GivenIn("doc", S.d, tag)
  \/ tag = "SPDXVersion"
  \/ tag = "DocumentComment" /\ Has(S.d, tag)
  \/ tag \in {"SPDXREF", "AnnotationDate", "AnnotationType", "AnnotationComment"} /\ S.anns # <<>>
        /\ GivenIn("ann", Last(S.anns), tag)
  \/ tag = "RelationshipComment" /\ S.rlns # <<>> /\ Has(Last(S.rlns), tag)
  \/ tag = "ArtifactOfProjectHomePage" /\ S.ao /\ Has(Last(Last(S.files).ArtifactOfProjects), "HomePage")
  \/ tag = "ArtifactOfProjectURI" /\ S.ao /\ Has(Last(Last(S.files).ArtifactOfProjects), "URI")

\* identifiers still missing, supplied
ClosingId(T) == CASE T.st = "pkg" /\ ~LastPkgOk(T) -> <<<<"SPDXID", "SPDXRef-close">>>>
                  [] T.st = "file" /\ ~LastFileOk(T) -> <<<<"SPDXID", "SPDXRef-close">>>>
                  [] OTHER -> <<>>

Want(T) == IF Accepted(T) THEN [doc |-> DocVal(T)] ELSE [err |-> TRUE]
EmitCase(ps, T, label) ==
  Emit([k |-> "tv", v |-> S.v, label |-> label, pairs |-> ps, want |-> Want(T)])
Label(tag, cls) == S.st \o "/" \o tag \o "/" \o cls

EmitStep(tag, val, cls) ==
  LET T == Step(S, tag, val)
      h == Append(hist, <<tag, val>>)
      c == IF T.st = "bad" THEN ClosingId(S) ELSE ClosingId(T)
  IN /\ EmitCase(h, T, Label(tag, cls))
     /\ c = <<>> \/ EmitCase(h \o c, StepAll(T, c), Label(tag, cls))

\* ----------------------------------------------------------------- exhaustive
Detour == LET t == Last(hist)[1] IN IF t \in FloatTags THEN t ELSE "none"
Some1(q) == IF Detour = "none" \/ q = <<>> THEN q ELSE <<q[(Len(hist) % Len(q)) + 1]>>
Take(q, n) == SubSeq(q, 1, IF Len(q) < n THEN Len(q) ELSE n)
Rejects(tag) == \* in this state no value of the tag is acceptable
  LET k == KindOfTag(S.st, tag)
  IN \A i \in DOMAIN Good(k, S.v) : Step(S, tag, Good(k, S.v)[i]).st = "bad"

ExhaustiveNext ==
  /\ S.st # "bad" /\ Len(hist) < MaxLen
  /\ \/ \E tag \in AllTags(S.v) :
          LET k == KindOfTag(S.st, tag)
              g == Good(k, S.v)
              vals == IF Rejects(tag) THEN Take(g, 1) ELSE Some1(g)
          IN /\ ~Again(tag)
             /\ \E i \in DOMAIN vals :
                  /\ EmitStep(tag, vals[i], "good")
                  /\ S' = Step(S, tag, vals[i])
                  /\ hist' = Append(hist, <<tag, vals[i]>>)
     \/ \E tag \in AllTags(S.v) :
          LET k == KindOfTag(S.st, tag)
              m == Some1(Malformed(k, S.v))
          IN /\ ~Again(tag) /\ ~Rejects(tag)
             /\ \E i \in DOMAIN m :
                  /\ EmitStep(tag, m[i], "malformed")
                  /\ S' = Step(S, tag, m[i])
                  /\ hist' = Append(hist, <<tag, m[i]>>)
     \/ \E tag \in ForeignTags(S.v) :
          /\ EmitStep(tag, "x", "foreign")
          /\ S' = Step(S, tag, "x")
          /\ hist' = Append(hist, <<tag, "x">>)

\* what the parser's behaviour can depend on
QuickView ==
  IF S.st = "bad" THEN <<"bad">>
  ELSE <<S.v, S.st, Len(S.pkgs) > 0, LastPkgOk(S), LastFileOk(S), S.xr, S.ao,
         S.rlns # <<>> /\ S.anns # <<>>, S.rlns = <<>> /\ S.anns = <<>> >>
\* and what it must not depend on: groups of tags that were open before, and
\* whether the last tag was one that belongs to no section
StaleView ==
  IF S.st = "bad" THEN <<"bad">>
  ELSE <<S.v, S.st, S.pkgs # <<>>, LastPkgOk(S), LastFileOk(S), S.xr, S.ao, Detour,
         S.rlns # <<>> /\ S.anns # <<>>, S.rlns = <<>> /\ S.anns = <<>>,
         S.st = "file" /\ Has(Last(S.files), "ArtifactOfProjects"),
         S.st = "pkg" /\ Has(Last(S.pkgs), "PackageExternalReferences"),
         S.st = "snip" /\ Has(Last(S.snips), "Ranges"), S.st = "pkg" /\ S.files # <<>> >>
ControlView ==
  IF S.st = "bad" THEN <<"bad">>
  ELSE <<S.v, S.st, Len(S.pkgs) > 0, Len(S.files) > 0, Len(S.snips) > 0, LastPkgOk(S), LastFileOk(S),
         S.xr, S.ao, S.rlns # <<>>, S.anns # <<>>, S.ci # Nil>>

\* --------------------------------------------------------------------- random
SomeOf(q) == q[RandomElement(DOMAIN q)]
NeedsId == ClosingId(S) # <<>>
SectionEnt == [start |-> "doc", ci |-> "ci", pkg |-> "pkg", file |-> "file", snip |-> "snip",
               lic |-> "lic", rev |-> "rev"]
\* tags a section can take, as a table
TagTable ==
  [v \in Versions |-> [st \in DOMAIN SectionEnt |->
     LET fs == FieldsOf(SectionEnt[st], v)
     IN {fs[i].t : i \in DOMAIN fs} \cup Opens(st) \cup FloatTags
        \cup (CASE st = "start" -> {"ExternalDocumentRef", "Creator", "LicenseListVersion"}
               [] st = "ci" -> {"ExternalDocumentRef"} \cup (IF v = 21 THEN {} ELSE {"DocumentComment"})
               [] st = "pkg" -> {"ExternalRefComment", "SPDXID"}
               [] st = "file" -> {"ArtifactOfProjectHomePage", "ArtifactOfProjectURI", "SPDXID"}
               [] st = "snip" -> {"SnippetLineRange"}
               [] OTHER -> {})]]
Usable(t) ==
  /\ ~Again(t)
  /\ t \in {"PackageName", "FileName", "SnippetSPDXID"} /\ t \in Opens(S.st) => LastFileOk(S) /\ (t # "PackageName" \/ LastPkgOk(S))
  /\ t = "ExternalRefComment" => S.xr
  /\ t \in {"ArtifactOfProjectHomePage", "ArtifactOfProjectURI"} => S.ao
  /\ t = "RelationshipComment" => S.rlns # <<>>
  /\ t \in FloatTags \ {"Relationship", "RelationshipComment", "Annotator"} => S.anns # <<>>
  /\ NeedsId => t \notin {"LicenseID", "Reviewer"}
  /\ t \in {"LicenseID", "Reviewer"} /\ S.st \notin {"lic", "rev"} => RandomElement(1..6) = 1
  /\ t \in FloatTags => RandomElement(1..2) = 1

RandomNext ==
  /\ S.st # "bad" /\ Len(hist) < MaxLen
  /\ \E roll \in {RandomElement(1..1000)} :
     \E allowed \in {{t \in TagTable[S.v][S.st] : Usable(t)}} :
     \E tag \in {IF (NeedsId /\ roll % 3 = 0) \/ allowed = {} THEN "SPDXID" ELSE RandomElement(allowed)} :
     \E k \in {KindOfTag(S.st, tag)} :
     \E m \in {Malformed(k, S.v)} :
       \/ /\ roll > ErrRate
          /\ \E val \in {SomeOf(Good(k, S.v))} :
              /\ S' = Step(S, tag, val) /\ hist' = Append(hist, <<tag, val>>)
              /\ (Len(hist) + 1 < MaxLen /\ S'.st # "bad") \/ EmitStep(tag, val, "walk")
       \/ /\ roll <= ErrRate /\ m # <<>>
          /\ \E val \in {SomeOf(m)} :
              /\ EmitStep(tag, val, "malformed")
              /\ S' = Step(S, tag, val) /\ hist' = Append(hist, <<tag, val>>)
       \/ /\ roll <= ErrRate /\ m = <<>>
          /\ \E t2 \in {RandomElement((AllTags(S.v) \ TagTable[S.v][S.st]) \cup ForeignTags(S.v))} :
             \E val \in {IF t2 \in AllTags(S.v) THEN SomeOf(Good(KindOfTag(S.st, t2), S.v)) ELSE "x"} :
              /\ EmitStep(t2, val, "misplaced")
              /\ S' = Step(S, t2, val) /\ hist' = Append(hist, <<t2, val>>)

Init == \E v \in Vers :
          /\ hist = <<<<"SPDXVersion", VerName(v)>>>>
          /\ S = Step(ParseInit(v), "SPDXVersion", VerName(v))
Next == IF SIM THEN RandomNext ELSE ExhaustiveNext
Spec == Init /\ [][Next]_<<S, hist>>

TypeInv == S.st = "bad" \/ (TypeOK(S) /\ OwnersOK(S) /\ IdsOK(S))
\* reading is a fold: the state is a function of the tags read
FoldInv == S = StepAll(ParseInit(S.v), hist)
\* nothing once stored is lost or moved: lists only grow
NothingLost == [][S'.st = "bad" \/
    (/\ \A g \in {"edrs", "pkgs", "files", "snips", "lics", "rlns", "anns", "revs"} : Len(S[g]) <= Len(S'[g])
     /\ SubSeq(S'.fown, 1, Len(S.fown)) = S.fown /\ SubSeq(S'.sown, 1, Len(S.sown)) = S.sown)]_<<S, hist>>
=============================================================================
