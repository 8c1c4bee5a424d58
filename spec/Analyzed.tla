------------------------------ MODULE Analyzed ------------------------------
(* Whether a package's files were analysed, and whether that was said: read   *)
(* from a text that says so or does not, or built in memory, and then taken   *)
(* through any sequence of writing and reading in the formats and converting  *)
(* between the versions.                                                      *)
EXTENDS TVParser, DocModel, Emit
CONSTANTS MaxSteps, MaxPkgs
\* src: where the document comes from; path: what was done to it since;
\* ver, doc: its version and value now; read: what the source said
VARIABLES src, path, ver, doc, read

Said == {"unsaid", "true", "false"}
Memory == {"analysed, stated", "analysed", "unanalysed, stated", "unanalysed"}
Seqs(S, n) == UNION {[1..i -> S] : i \in 1..n}
PkgId(i) == "p" \o ToString(4 - i)          \* listed in the other order than their identifiers

(* --- tag-value ------------------------------------------------------------- *)
\* where in the package the tag stands, and what the package follows
TVPkg1(i, said, place) ==
  LET tag == IF said = "unsaid" THEN <<>> ELSE << <<"FilesAnalyzed", said>> >>
      at(p) == IF p = place THEN tag ELSE <<>>
  IN << <<"PackageName", PkgId(i)>> >> \o at("first") \o << <<"SPDXID", "SPDXRef-" \o PkgId(i)>> >>
     \o at("middle") \o << <<"PackageVerificationCode", "d6a7">>, <<"PackageLicenseInfoFromFiles", "MIT">> >> \o at("last")
Before == {"", "unpackaged file", "packaged file", "relationship", "annotation"}
Filler(b, i) ==
  CASE b = "" -> <<>>
    [] b \in {"unpackaged file", "packaged file"} -> << <<"FileName", "./f" \o ToString(i)>>, <<"SPDXID", "SPDXRef-f" \o ToString(i)>> >>
    [] b = "relationship" -> << <<"Relationship", "SPDXRef-DOCUMENT DESCRIBES SPDXRef-p1">> >>
    [] b = "annotation" -> << <<"Annotator", "Tool: t">>, <<"AnnotationDate", "2010-01-29T18:30:22Z">> >>
RECURSIVE TVPkgs(_, _, _, _)
TVPkgs(ks, i, place, b) ==
  IF i > Len(ks) THEN <<>>
  ELSE (IF i = 1 /\ b # "unpackaged file" THEN <<>> ELSE IF i > 1 /\ b = "unpackaged file" THEN <<>> ELSE Filler(b, i))
       \o TVPkg1(i, ks[i], place) \o TVPkgs(ks, i + 1, place, b)
TVPairsOf(s) ==
  << <<"SPDXVersion", VerName(s.v)>>, <<"SPDXID", "SPDXRef-DOCUMENT">>, <<"Creator", "Tool: t">>, <<"Created", "2010-01-29T18:30:22Z">> >>
  \o TVPkgs(s.kinds, 1, s.place, s.before)
RECURSIVE Lines(_)
Lines(ps) == IF ps = <<>> THEN "" ELSE ps[1][1] \o ": " \o ps[1][2] \o "\n" \o Lines(Tail(ps))

(* --- JSON and YAML ----------------------------------------------------------- *)
JPkg(i, said, place, yaml) ==
  LET m == CASE said = "unsaid" -> "" [] OTHER -> "\"filesAnalyzed\": " \o said
      parts == SelectSeq(<< IF place = "first" THEN m ELSE "", "\"name\": \"" \o PkgId(i) \o "\"", IF place = "middle" THEN m ELSE "",
                  "\"SPDXID\": \"SPDXRef-" \o PkgId(i) \o "\"",
                  "\"packageVerificationCode\": {\"packageVerificationCodeValue\": \"d6a7\"}", "\"licenseInfoFromFiles\": [\"MIT\"]",
                  IF place = "last" THEN m ELSE "" >>, LAMBDA x : x # "")
  IN IF yaml THEN "- {" \o JoinWith(parts, ", ") \o "}\n" ELSE "{" \o JoinWith(parts, ", ") \o "}"
JText(s) ==
  LET yaml == s.f = "yaml"
      ps == [i \in DOMAIN s.kinds |-> JPkg(i, s.kinds[i], s.place, yaml)]
  IN IF yaml
     THEN "spdxVersion: " \o VerName(s.v) \o "\nSPDXID: SPDXRef-DOCUMENT\ncreationInfo:\n  created: \"2010-01-29T18:30:22Z\"\n  creators: [\"Tool: t\"]\npackages:\n"
          \o JoinWith(ps, "")
     ELSE "{\"spdxVersion\": \"" \o VerName(s.v) \o "\", \"SPDXID\": \"SPDXRef-DOCUMENT\", \"creationInfo\": {\"created\": \"2010-01-29T18:30:22Z\", "
          \o "\"creators\": [\"Tool: t\"]}, \"packages\": [" \o JoinWith(ps, ", ") \o "]}"

(* --- documents ----------------------------------------------------------------- *)
Pkg(i, analysed, stated) ==
  ("PackageName" :> PkgId(i)) @@ ("PackageSPDXIdentifier" :> PkgId(i)) @@ ("PackageVerificationCode" :> [Value |-> "d6a7"])
  @@ ("PackageLicenseInfoFromFiles" :> <<"MIT">>) @@ ("FilesAnalyzed" :> analysed) @@ ("IsFilesAnalyzedTagPresent" :> stated)
DocWith(v, ps) ==
  ("SPDXVersion" :> VerName(v)) @@ ("SPDXIdentifier" :> "DOCUMENT") @@ ("Packages" :> ps)
  @@ ("CreationInfo" :> [Created |-> "2010-01-29T18:30:22Z", Creators |-> <<[Creator |-> "t", CreatorType |-> "Tool"]>>])
SrcText(s) == IF s.f = "memory" THEN "" ELSE IF s.f = "tv" THEN Lines(TVPairsOf(s)) ELSE JText(s)
SrcDoc(s) ==
  CASE s.f = "memory" -> DocWith(s.v, [i \in DOMAIN s.kinds |-> Pkg(i, s.kinds[i] \in {"analysed, stated", "analysed"},
                                                                      s.kinds[i] \in {"analysed, stated", "unanalysed, stated"})])
    [] s.f = "tv" -> DocVal(StepAll(ParseInit(s.v), TVPairsOf(s)))
    [] OTHER -> DocWith(s.v, [i \in DOMAIN s.kinds |-> Pkg(i, s.kinds[i] # "false", s.kinds[i] # "unsaid")])

Src(f, v, kinds, place, before) == [f |-> f, v |-> v, kinds |-> kinds, place |-> place, before |-> before]
Sources ==
  {Src("tv", v, ks, pl, "") : v \in Versions, ks \in Seqs(Said, MaxPkgs), pl \in {"first", "last"}}
  \cup {Src(f, v, ks, pl, "") : f \in {"json", "yaml"}, v \in {22, 23}, ks \in Seqs(Said, MaxPkgs), pl \in {"first", "middle"}}
  \cup {Src("memory", v, ks, "", "") : v \in Versions, ks \in Seqs(Memory, MaxPkgs)}
\* only read, not taken further
OnlyRead ==
  {Src("tv", v, ks, pl, b) : v \in Versions, ks \in Seqs(Said, 3), pl \in {"first", "middle", "last"}, b \in Before}
  \cup {Src(f, v, ks, pl, "") : f \in {"json", "yaml"}, v \in {22, 23}, ks \in Seqs(Said \cup {"null"}, 3), pl \in {"first", "middle", "last"}}
Null(ks) == [i \in DOMAIN ks |-> IF ks[i] = "null" THEN "unsaid" ELSE ks[i]]
Meaning(s) == SrcDoc([s EXCEPT !.kinds = Null(@)])

Steps == {"tv", "json", "yaml", "21", "22", "23"}
VerOfStep(x) == CASE x = "21" -> 21 [] x = "22" -> 22 [] x = "23" -> 23
IsConv(x) == x \in {"21", "22", "23"}
Can(x) == IF IsConv(x) THEN VerOfStep(x) # ver ELSE x \in {"json", "yaml"} => ver # 21
\* JSON and YAML always say whether the files were analysed
Stated(d) == MapList(d, "Packages", LAMBDA p : Put(p, "IsFilesAnalyzedTagPresent", TRUE))
Through(x, v, d) ==
  CASE x = "tv" -> TVNorm(d)
    [] x \in {"json", "yaml"} -> Stated(JsonNorm(v, d))
    [] OTHER -> ConvertAlong(d, Between(v, VerOfStep(x)))

Init ==
  /\ \/ src \in Sources /\ path = <<>>
     \/ src \in OnlyRead \ Sources /\ path = <<"stop">>
  /\ ver = src.v /\ doc = Meaning(src) /\ read = "no"
Read == /\ read = "no" /\ read' = "yes" /\ UNCHANGED <<src, path, ver, doc>>
        /\ Emit([k |-> "analyzed", f |-> src.f, v |-> src.v, text |-> SrcText(src), doc |-> doc, path |-> <<>>, want |-> doc,
                 label |-> src.f \o ToString(src.v) \o " " \o ToString(src.kinds)])
Apply == /\ read = "yes" /\ Len(path) < MaxSteps /\ path # <<"stop">>
        /\ \E x \in Steps :
             /\ Can(x)
             /\ path' = Append(path, x) /\ doc' = Through(x, ver, doc)
             /\ ver' = (IF IsConv(x) THEN VerOfStep(x) ELSE ver) /\ UNCHANGED <<src, read>>
             /\ Emit([k |-> "analyzed", f |-> src.f, v |-> src.v, text |-> SrcText(src), doc |-> Meaning(src), path |-> path', want |-> doc',
                      label |-> src.f \o ToString(src.v) \o " " \o ToString(src.kinds) \o " " \o ToString(path')])
Next == Read \/ Apply
Spec == Init /\ [][Next]_<<src, path, ver, doc, read>>

PkgOf(d, i) == CHOOSE p \in {d.Packages[j] : j \in DOMAIN d.Packages} : p.PackageSPDXIdentifier = PkgId(i)
Analysed(p) == Get(p, "FilesAnalyzed", FALSE)
IsStated(p) == Get(p, "IsFilesAnalyzedTagPresent", FALSE)
Expected(kind) == kind \in {"analysed, stated", "analysed", "true", "unsaid", "null"}
\* whatever is done, each package stays as analysed as its source said
Survives == \A i \in DOMAIN src.kinds : Analysed(PkgOf(doc, i)) = Expected(src.kinds[i])
\* reading keeps apart what was said from what was not
Remembered == path \in {<<>>, <<"stop">>} => \A i \in DOMAIN src.kinds :
  src.f # "memory" => IsStated(PkgOf(doc, i)) = (src.kinds[i] \in {"true", "false"})
\* an analysed package loses nothing, and one that was never written as tag-value neither
Whole == \A i \in DOMAIN src.kinds :
  Expected(src.kinds[i]) \/ (\A j \in DOMAIN path : path[j] # "tv") => Has(PkgOf(doc, i), "PackageVerificationCode")
\* once said, it stays said
StaysStated == [][\A i \in DOMAIN src.kinds : IsStated(PkgOf(doc, i)) => IsStated(PkgOf(doc', i))]_<<src, path, ver, doc, read>>
=============================================================================
