------------------------------ MODULE TVLexer ------------------------------
(* How tag-value text denotes tag/value pairs: one action per line of text.  *)
(* The state is what has been denoted so far.  In mode "out" a line is       *)
(* ignored, denotes a pair, opens a <text> value or is an error; in mode     *)
(* "in" it continues or closes the open value.                               *)
EXTENDS Str

Open == "<text>"
Close == "</text>"

LexInit == [mode |-> "out", tag |-> "", val |-> "", pairs |-> <<>>]
LexBad == [mode |-> "bad", tag |-> "", val |-> "", pairs |-> <<>>]

AddPair(s, t, v) == [mode |-> "out", tag |-> "", val |-> "", pairs |-> Append(s.pairs, <<t, v>>)]

StepOut(s, line) ==
  LET l == TrimLeft(line)
  IN IF l = "" \/ Ch(l, 1) = "#" THEN s
     ELSE LET c == SplitFirst(l, ":")
          IN IF Len(c) = 1 THEN LexBad
             ELSE LET t == Trim(c[1])
                      o == SplitFirst(c[2], Open)
                  IN IF Len(o) = 1 THEN AddPair(s, t, Trim(c[2]))
                     ELSE LET e == SplitFirst(o[2], Close)
                          IN IF Len(e) = 2 THEN AddPair(s, t, e[1])
                             ELSE [s EXCEPT !.mode = "in", !.tag = t, !.val = o[2] \o "\n"]

StepIn(s, line) ==
  LET e == SplitFirst(line, Close)
  IN IF Len(e) = 2 THEN AddPair(s, s.tag, s.val \o e[1])
     ELSE [s EXCEPT !.val = @ \o line \o "\n"]

LexStep(s, line) ==
  CASE s.mode = "bad" -> s
    [] s.mode = "out" -> StepOut(s, line)
    [] s.mode = "in" -> StepIn(s, line)

\* what the text denotes if it ends here
LexResult(s) == IF s.mode = "out" THEN Ok(s.pairs) ELSE Err
=============================================================================
