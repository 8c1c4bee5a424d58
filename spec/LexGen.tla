------------------------------- MODULE LexGen -------------------------------
(* Texts over a vocabulary of line shapes.  Exhaustive to MaxLines, or random *)
(* walks of that length when SIM; every text generated is a test of the real  *)
(* lexer, which must find exactly the pairs (or the error) denoted.           *)
EXTENDS TVLexer, Emit, Naturals
CONSTANTS MaxLines, SIM,
          Huge,      \* lines of many MiB instead of the usual shapes
          Times      \* how often a text is said again, to make a long one
VARIABLES lines, st

Usual == <<
  "", "   ", "\t", "# a comment: with colon", "  # indented <text> comment", "no colon here",
  "Tag: value", "Tag:value", "  Tag  :   spaced value \t ", "Tag:", "Tag: a:b: c", "Tag: # not a comment",
  "Url: https://x.org/a#b?c=d&e", "Other: <b>bold</b> {{U}}", "Tag: {{LONG}}",
  "Tag: <text>one line: # x</text>", "Tag: <text></text>", "Tag:<text>  kept  </text>  ",
  "Tag: <text>opens, \"q\" ", "Tag: <text>", "Tag: <text>has <text> inside", "Tag: <text>{{LONG}}",
  "Tag: <text>o{{CR}}p", "q: s{{CR}}r", "closes here</text>", "</text>", "  </text>  ", "Fake: <text>in</text>", "{{LONG}}</text>" >>

Giant == <<
  "Tag: {{HUGE}}", "Tag: <text>{{HUGE}}", "Tag: <text>{{HUGE}}</text>", "{{HUGE}}</text>", "# {{HUGE}}", "{{HUGE}}",
  "Tag: <text>opens", "closes</text>", "", "Other: value" >>
Shapes == IF Huge THEN Giant ELSE Usual

\* a text in which the specification of the format leaves no doubt about the value:
\* nothing after a closing mark but blanks, nothing before an opening mark
CleanOut(l) ==
  LET t == TrimLeft(l)
      o == SplitFirst(t, Open)
      e == SplitFirst(t, Close)
  IN /\ (Len(e) = 2 => Trim(e[2]) = "")
     /\ (Len(e) = 2 /\ Len(o) = 1 => FALSE)
CleanIn(l) == LET e == SplitFirst(l, Close) IN Len(e) = 1 \/ Trim(e[2]) = ""
Clean(s, l) == CASE s.mode = "out" -> (TrimLeft(l) = "" \/ Ch(TrimLeft(l), 1) = "#" \/ CleanOut(l))
                 [] s.mode = "in" -> CleanIn(l)
                 [] s.mode = "bad" -> FALSE

\* A text said n times over denotes its pairs n times over, when it leaves no
\* value open; so the tests of long texts say short ones again and again.
Repeatable(s) == s.mode = "out"
RECURSIVE LexFrom(_, _)
LexFrom(s, ls) == IF ls = <<>> THEN s ELSE LexFrom(LexStep(s, Head(ls)), Tail(ls))
Emission(ls, s) == Emit([k |-> "lex", lines |-> ls, times |-> IF Repeatable(s) THEN Times ELSE 1,
                         want |-> IF IsErr(LexResult(s)) THEN [err |-> TRUE] ELSE [pairs |-> s.pairs]])

Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Usable == {i \in DOMAIN Shapes : Clean(st, Shapes[i])}

Init == lines = <<>> /\ st = LexInit
Next == /\ Len(lines) < MaxLines
        /\ Usable # {}
        /\ \E i \in Pick(Usable) :
             /\ lines' = Append(lines, Shapes[i])
             /\ st' = LexStep(st, Shapes[i])
             /\ (SIM /\ Len(lines') < MaxLines /\ st'.mode # "bad") \/ Emission(lines', st')
Spec == Init /\ [][Next]_<<lines, st>>

\* design-level facts
Progress == st.mode \in {"out", "in", "bad"}
NothingFromOpenText == st.mode # "out" => IsErr(LexResult(st))
SaidAgain == Repeatable(st) => LexFrom(st, lines) = [st EXCEPT !.pairs = st.pairs \o st.pairs]
PrefixStable == [][st'.mode = "bad" \/ (Len(st.pairs) <= Len(st'.pairs)
                     /\ SubSeq(st'.pairs, 1, Len(st.pairs)) = st.pairs)]_<<lines, st>>
=============================================================================
