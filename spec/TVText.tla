------------------------------- MODULE TVText -------------------------------
(* What a whole tag-value text denotes: the lexer's pairs, taken by the      *)
(* parser.                                                                   *)
EXTENDS TVLexer, TVParser

Pairs(text) ==
  LET ls == SplitAll(text, "\n")
      RECURSIVE go(_, _)
      go(i, s) == IF i > Len(ls) THEN s ELSE go(i + 1, LexStep(s, ls[i]))
      st == go(1, LexInit)
  IN LexResult(st)

WantText(w, text) ==
  LET p == Pairs(text)
  IN IF IsErr(p) \/ p.ok = <<>> THEN [err |-> TRUE]
     ELSE IF ~(\E i \in DOMAIN p.ok : p.ok[i] = <<"SPDXVersion", VerName(w)>>) THEN [err |-> TRUE]
     ELSE LET S == StepAll(ParseInit(w), p.ok)
          IN IF Accepted(S) THEN [doc |-> DocVal(S)] ELSE [err |-> TRUE]
=============================================================================
