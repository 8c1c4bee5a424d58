----------------------------- MODULE IdSearch ------------------------------
(* Searching a directory for short-form licence identifiers.  Files grow line *)
(* by line; the search reads them line by line and collects the expressions   *)
(* of the tags.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Ignore, Emit
CONSTANTS MaxLines, MaxFiles, SIM,
          Filler     \* what makes a line long
VARIABLES files,   \* sequence of [path, lines, eol]
          pats     \* which exclusion list is in use

Tag == "SPDX-License-Identifier:"
Exprs == <<"MIT", "Apache-2.0 OR GPL-2.0-or-later", "GPL-2.0+", "GPL-2.0-only WITH Classpath-exception-2.0",
           "MIT AND (BSD-3-Clause OR ISC)", "(MIT OR ISC)", "LicenseRef-a.b-1", "mit or isc", "ISC and (0BSD AND Zlib)", "ISC", "Apache-2.0", "mit", "GPL-2.0">>
Styles == << <<"// ", "">>, <<"", "">>, <<"# ", "">>, <<"/* ", " */">>, <<"/* ", "*/ int x;">>, <<" * ", "">>, <<"<!-- ", " -->">>, <<"<!--", "-->">>, <<"-- ", "">>,
             <<";;; ", "">>, <<"% ", "">>, <<"(* ", " *)">>, <<"{- ", " -}">>, <<"{# ", " #}">>, <<"dnl ", "">>, <<"REM ", "">>, <<"        // ", "">>,
             <<"\t\t\t\t\t\t\t# ", "  ">>, <<"{{BOM}}// ", "">>, <<"//", "{{CR}}">>, <<"\" ", "\"">>, <<"' ", "'">>, <<"; ", "\t">> >>
TagLine(i, e) == Styles[i][1] \o Tag \o " " \o e \o Styles[i][2]
NoTags == <<"", "plain text", "the words before SPDX-License-Identifier: MIT make this no tag", "if file.contains(\"SPDX-License-Identifier: GPL-3.0-only\") {",
            "// SPDX-License-Identifier:", "/* SPDX-License-Identifier: */", "// SPDX-License-Identifier", "// spdx-license-identifier: Zlib", "{{LONG}}", "{{NUL}}{{CTL}}", "AND OR WITH"
            >>

\* a line is [expr, text]; expr is <<>> when the line holds no tag
LinesOf(S, X) == {[expr |-> <<Exprs[e]>>, text |-> TagLine(i, Exprs[e])] : i \in S, e \in X} \cup {[expr |-> <<>>, text |-> NoTags[i]] : i \in DOMAIN NoTags}
                 \cup {[expr |-> <<Exprs[e]>>, text |-> Styles[4][1] \o Tag \o Exprs[e] \o " */ " \o Filler] : e \in X}
                 \cup {[expr |-> <<>>, text |-> "x " \o Filler]}
All == LinesOf(DOMAIN Styles, DOMAIN Exprs)
Few == LinesOf({1, 4, 7}, {1, 2, 6, 7})

\* ------------------------------------------------------------------- search
\* the search of one file, line by line
RECURSIVE Search(_)
Search(lines) == IF lines = <<>> THEN {} ELSE {lines[1].expr[i] : i \in DOMAIN lines[1].expr} \cup Search(Tail(lines))
Upper(w) == CASE w \in {"and", "And"} -> "AND" [] w \in {"or", "Or"} -> "OR" [] w \in {"with", "With"} -> "WITH" [] OTHER -> w
Operators == {"AND", "OR", "WITH"}
Plain(w) == LET drop(c) == c \in {"(", ")", "+"}
                RECURSIVE go(_)
                go(s) == IF s = "" THEN "" ELSE (IF drop(Ch(s, 1)) THEN "" ELSE Ch(s, 1)) \o go(SubSeq(s, 2, Len(s)))
            IN go(w)
ExprSet == {Exprs[i] : i \in DOMAIN Exprs}
IndividualOf(e) == LET ws == Words(e) IN {Plain(ws[i]) : i \in {j \in DOMAIN ws : Upper(ws[j]) \notin Operators}} \ {""}
Ind == [e \in ExprSet |-> IndividualOf(e)]
Individual(e) == Ind[e]
\* the ascending orders of all that can occur, sorted once
AllSorted == SetToSorted(ExprSet)
AllIndSorted == SetToSorted(UNION {Ind[e] : e \in ExprSet})
Sorted(S) == SelectSeq(AllSorted, LAMBDA e : e \in S)
IndSorted(S) == SelectSeq(AllIndSorted, LAMBDA e : e \in S)
Compound(e) == LET ws == Words(e) IN \E i \in DOMAIN ws : Upper(ws[i]) \in {"AND", "OR"}
Wrapped(e) == StartsWith(e, "(") /\ EndsWith(e, ")") /\ \A i \in 2..(Len(e) - 1) : Ch(e, i) \notin {"(", ")"}
\* the ways to keep a compound expression in parentheses
Member(e) == IF ~Compound(e) THEN {e} ELSE IF Wrapped(e) THEN {e, "(" \o e \o ")"} ELSE {"(" \o e \o ")"}
RECURSIVE Joined(_)
Joined(es) == IF Len(es) = 1 THEN Member(es[1]) ELSE {a \o " AND " \o b : a \in Member(es[1]), b \in Joined(Tail(es))}
Concluded(S) == IF S = {} THEN {"NOASSERTION"}
                ELSE LET es == Sorted(S) IN IF Len(es) = 1 THEN {es[1]} \cup Member(es[1]) ELSE Joined(es)
OrNone(S) == IF S = {} THEN <<"NOASSERTION">> ELSE IndSorted(S)
InFile(f) == UNION {Individual(e) : e \in Search(f.lines)}
PatLists == << <<>>, <<[deep |-> FALSE, slash |-> TRUE, dirs |-> <<>>, file |-> "f1"]>>, <<[deep |-> TRUE, slash |-> TRUE, dirs |-> <<>>, file |-> "f2"]>>,
               <<[deep |-> FALSE, slash |-> TRUE, dirs |-> <<"d">>, file |-> ""]>>, <<[deep |-> TRUE, slash |-> TRUE, dirs |-> <<"e">>, file |-> ""], [deep |-> FALSE, slash |-> TRUE, dirs |-> <<>>, file |-> "f2"]>> >>
Searched(fs, p) == SelectSeq(fs, LAMBDA f : ~Ignored(PatLists[p], f.path))
Result(fs, p) ==
  [files |-> [i \in DOMAIN fs |-> LET skip == Ignored(PatLists[p], fs[i].path)
                                      S == IF skip THEN {} ELSE Search(fs[i].lines)
                                  IN [path |-> "." \o PathText(fs[i].path), concluded |-> Concluded(S), info |-> OrNone(IF skip THEN {} ELSE InFile(fs[i]))]],
   package |-> OrNone(UNION {InFile(Searched(fs, p)[i]) : i \in DOMAIN Searched(fs, p)})]
TextOf(f) == LET t == [i \in DOMAIN f.lines |-> f.lines[i].text] IN [path |-> PathText(f.path), lines |-> t, eol |-> f.eol, last |-> f.last]
Out(fs, p) == Emit([k |-> "idsearch", label |-> "files" \o ToString(Len(fs)) \o " exclusion" \o ToString(p) \o " tags" \o ToString(Cardinality(UNION {Search(fs[i].lines) : i \in DOMAIN fs})),
                    files |-> [i \in DOMAIN fs |-> TextOf(fs[i])], pats |-> [j \in DOMAIN PatLists[p] |-> PatternText(PatLists[p][j])],
                    build |-> [j \in DOMAIN PatLists[1] |-> ""], want |-> Result(fs, p)])

PathsInUse == << <<"f1">>, <<"f2">>, <<"d", "f1">>, <<"d", "e", "f2">>, <<"e", "f3">>, <<"{{U}} x">> >>
NewFile(n) == [path |-> PathsInUse[n], lines |-> <<>>, eol |-> "{{NL}}", last |-> TRUE]
Init == files = <<>> /\ pats = 1
AddFile(eol, last) == /\ Len(files) < MaxFiles /\ files' = Append(files, [NewFile(Len(files) + 1) EXCEPT !.eol = eol, !.last = last])
AddLine(l) == /\ files # <<>> /\ Len(files[Len(files)].lines) < MaxLines
              /\ files' = [files EXCEPT ![Len(files)].lines = Append(@, l)]
Next == IF SIM
        THEN \E r \in {RandomElement(1..8)} : \E p \in {RandomElement(DOMAIN PatLists)} : \E l \in {RandomElement(All)} : \E e \in {RandomElement({"{{NL}}", "{{CR}}{{NL}}"})} : \E z \in {RandomElement(BOOLEAN)} :
               /\ IF files = <<>> \/ (r = 1 /\ Len(files) < MaxFiles) \/ Len(files[Len(files)].lines) >= MaxLines THEN AddFile(e, z) ELSE AddLine(l)
               /\ pats' = p
               /\ (r <= 3 => Out(files', p))
        ELSE /\ pats' = pats
             /\ \/ files = <<>> /\ AddFile("{{NL}}", TRUE)
                \/ \E l \in (IF files # <<>> /\ Len(files[1].lines) = 0 THEN All ELSE Few) : AddLine(l)
             /\ Out(files', 1)
Spec == Init /\ [][Next]_<<files, pats>>

\* --------------------------------------------------------------------- facts
Whole == LET r == Result(files, pats) IN
  /\ Len(r.files) = Len(files)
  /\ \A i \in DOMAIN files : Searched(<<files[i]>>, pats) = <<>> => r.files[i].info = <<"NOASSERTION">>
UnionExact == LET r == Result(files, pats)
                  all == UNION {{r.files[i].info[j] : j \in DOMAIN r.files[i].info} : i \in DOMAIN files} \ {"NOASSERTION"}
              IN {r.package[j] : j \in DOMAIN r.package} \ {"NOASSERTION"} = all
LineOrderIrrelevant == \A i \in DOMAIN files : LET ls == files[i].lines IN
  Search(ls) = Search([j \in DOMAIN ls |-> ls[Len(ls) + 1 - j]])
=============================================================================
