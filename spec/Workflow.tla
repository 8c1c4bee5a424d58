------------------------------ MODULE Workflow ------------------------------
(* What the parts of the library do together.  A document is made from a      *)
(* directory, with or without a search for licences; then it is written and   *)
(* read back in any format and converted between the versions, any number of  *)
(* times; and at any moment it can be validated, reported on and compared     *)
(* with a document made from another state of the directory.  Nothing on the  *)
(* way loses anything: the document stays the one that was made.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Str, Emit
CONSTANTS PkgNames, MaxSteps, SIM
VARIABLES made,    \* how the document was made: [how, name, tree, conf]
          doc,     \* the document: [ver, name, files]
          hist     \* what was done with it

Paths == <<"f", "d/e/f 1", "{{U}}/x:y # z", "d/.g", "a_b~(c)&<d>">>
Licences == <<"", "MIT", "GPL-2.0+", "LicenseRef-a.b-1">>
\* a directory: the licence tag of each file that is there; 0: the file is not there
Trees == << <<1, 1, 1, 1, 1>>, <<2, 0, 0, 0, 0>>, <<2, 3, 2, 1, 4>>, <<0, 3, 2, 0, 0>>, <<0, 0, 0, 0, 0>>, <<4, 3, 1, 2, 2>> >>
FilesOf(t) == {[path |-> "./" \o Paths[i], tag |-> Licences[Trees[t][i]]] : i \in {j \in DOMAIN Paths : Trees[t][j] # 0}}
Concluded(how, tag) == IF how = "build" \/ tag = "" THEN "NOASSERTION" ELSE tag
MadeFrom(how, t) == {[path |-> f.path, lic |-> Concluded(how, f.tag)] : f \in FilesOf(t)}

\* what the maker is told: who asks for the document, as what, its prefix, and when it is unless that is now
Conf(t, c, p, at) == [type |-> t, creator |-> c, prefix |-> p, at |-> at]
Confs == << Conf("Person", "Jo", "https://example.com/ns-", "2018-10-19T04:38:00Z"), Conf("Organization", "Acme, Inc. (x@example.com)", "https://a.example/b%20c?d=", ""),
            Conf("Tool", "make-1.0", "urn:x:", ""), Conf("", "Jo Doe (jo@example.com)", "https://example.com/ns-", ""), Conf("person", "Ann {{U}}", "https://example.com/ns-", "1999-12-31T23:59:59Z"),
            Conf("Robot", "R 2", "https://example.com/ns-", ""), Conf("Tool ", "t", "https://example.com/ns-", "") >>
BuilderTool == [type |-> "Tool", creator |-> "github.com/spdx/tools-golang/builder"]
SearchTool == [type |-> "Tool", creator |-> "github.com/spdx/tools-golang/idsearcher"]
\* whoever is of none of the types is a person
Kind(t) == IF t \in {"Person", "Organization", "Tool"} THEN t ELSE "Person"
Creators(m) == {BuilderTool, IF m.how = "search" THEN SearchTool ELSE [type |-> Kind(Confs[m.conf].type), creator |-> Confs[m.conf].creator]}
CreatedAt(m) == IF m.how = "search" THEN "" ELSE Confs[m.conf].at
Make(how, name, t, c) == /\ made = <<>> /\ made' = <<[how |-> how, name |-> name, tree |-> t, conf |-> c]>>
                      /\ doc' = [ver |-> 23, name |-> name, files |-> MadeFrom(how, t)] /\ hist' = <<>>
\* write it and read it back, in its version
Store(fmt) == /\ made # <<>> /\ hist' = Append(hist, fmt) /\ UNCHANGED <<made, doc>>
\* convert it, or write it and read it as another version: the same thing
Turn(v) == /\ made # <<>> /\ v # doc.ver /\ doc' = [doc EXCEPT !.ver = v] /\ hist' = Append(hist, "to" \o ToString(v)) /\ UNCHANGED made
ReadAs(fmt, v) == /\ made # <<>> /\ v # doc.ver /\ doc' = [doc EXCEPT !.ver = v] /\ hist' = Append(hist, fmt \o ToString(v)) /\ UNCHANGED made

\* --------------------------------------------------------------- observations
Missing == {"", "NOASSERTION"}
Report(fs) == LET found == {f \in fs : f.lic \notin Missing}
              IN [found |-> Cardinality(found), missing |-> Cardinality(fs) - Cardinality(found),
                  counts |-> {[lic |-> l, n |-> Cardinality({f \in fs : f.lic = l})] : l \in {f.lic : f \in found}}]
LicIn(fs, p) == (CHOOSE f \in fs : f.path = p).lic
PathsIn(fs) == {f.path : f \in fs}
Diff(one, two) == LET p == PathsIn(one)
                      q == PathsIn(two)
                  IN [first |-> p \ q, second |-> q \ p, same |-> {x \in p \cap q : LicIn(one, x) = LicIn(two, x)}, changed |-> {x \in p \cap q : LicIn(one, x) # LicIn(two, x)}]
Others == IF SIM THEN {RandomElement(DOMAIN Trees)} ELSE {3}
Out == \E m \in {made'[1]} : \E d \in {doc'} : \A o \in Others :
  Emit([k |-> "workflow", label |-> m.how \o " tree" \o ToString(m.tree) \o " steps" \o ToString(Len(hist')), how |-> m.how, name |-> m.name, ops |-> hist', other |-> FilesOf(o),
        tree |-> FilesOf(m.tree), conf |-> Confs[m.conf],
        want |-> [creators |-> Creators(m), created |-> CreatedAt(m), ver |-> d.ver, files |-> d.files, report |-> Report(d.files), diff |-> Diff(d.files, MadeFrom(m.how, o))]])

Formats == {"tv", "json", "yaml"}
Vs == {21, 22, 23}
Init == made = <<>> /\ doc = [ver |-> 0, name |-> "", files |-> {}] /\ hist = <<>>
Step == \/ \E f \in Formats : Store(f)
        \/ \E v \in Vs : Turn(v)
        \/ \E f \in Formats, v \in Vs : ReadAs(f, v)
Any_(S) == RandomElement(S)
Next == IF made = <<>>
        THEN /\ IF SIM THEN \E h \in {Any_({"build", "search"})} : \E n \in {Any_(PkgNames)} : \E t \in {Any_(DOMAIN Trees)} : \E c \in {Any_(DOMAIN Confs)} : Make(h, n, t, c)
                       ELSE \E h \in {"build", "search"}, n \in PkgNames, t \in DOMAIN Trees : \E c \in (IF t = 3 THEN DOMAIN Confs ELSE {1}) : Make(h, n, t, c)
             /\ Out
        ELSE /\ Len(hist) < MaxSteps
             /\ IF SIM THEN \E r \in {Any_(1..3)} : \E f \in {Any_(Formats)} : \E v \in {Any_(Vs \ {doc.ver})} :
                              IF r = 1 THEN Store(f) ELSE IF r = 2 THEN Turn(v) ELSE ReadAs(f, v)
                       ELSE Step
             /\ Out
Spec == Init /\ [][Next]_<<made, doc, hist>>

\* ---------------------------------------------------------------------- facts
Kept == made # <<>> => doc.files = MadeFrom(made[1].how, made[1].tree) /\ doc.name = made[1].name
RightVersion == doc.ver \in Vs \cup {0}
CountsAdd == LET r == Report(doc.files) IN r.found + r.missing = Cardinality(doc.files)
SameAsItself == Diff(doc.files, doc.files).same = PathsIn(doc.files)
SomeoneElse == made # <<>> => \A x \in Creators(made[1]) : x.type \in {"Person", "Organization", "Tool"}
MadeOnce == [][made # <<>> => made' = made]_<<made, doc, hist>>
=============================================================================
