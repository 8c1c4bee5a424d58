------------------------------ MODULE TVTrace ------------------------------
(* Texts recorded from the code, taken line by line by the lexer and pair by *)
(* pair by the parser. A text the code wrote has to denote the document it   *)
(* was given (as far as tag-value can say it): the case that ends a text     *)
(* carries what the text denotes, to be compared with that. A text that came *)
(* with the code has to be read as what it denotes.                          *)
EXTENDS TVText, Emit
CONSTANTS TraceFile, Lanes
VARIABLES i, l, lex, p, S

vars == <<i, l, lex, p, S>>
Traces == ndJsonDeserialize(TraceFile)
Begin(n) == i = n /\ l = 1 /\ lex = LexInit /\ p = 1 /\ S = ParseInit(Traces[n].v)
Init == \E n \in 1..Lanes : n <= Len(Traces) /\ Begin(n)

LineStep == /\ i <= Len(Traces) /\ l <= Len(Traces[i].lines)
            /\ lex' = LexStep(lex, Traces[i].lines[l]) /\ l' = l + 1 /\ UNCHANGED <<i, p, S>>
Lexed == i <= Len(Traces) /\ l > Len(Traces[i].lines)
PairStep == /\ Lexed /\ p <= Len(lex.pairs)
            /\ S' = Step(S, lex.pairs[p][1], lex.pairs[p][2]) /\ p' = p + 1 /\ UNCHANGED <<i, l, lex>>
Done == Lexed /\ p > Len(lex.pairs)
Outcome == IF IsErr(LexResult(lex)) \/ ~Accepted(S) THEN [err |-> TRUE] ELSE [doc |-> DocVal(S)]
Finish == /\ Done
          /\ Emit([k |-> Traces[i].k, v |-> Traces[i].v, label |-> Traces[i].label, doc |-> Traces[i].doc, norm |-> Traces[i].norm,
                   lines |-> Traces[i].lines, want |-> Outcome])
          /\ IF i + Lanes <= Len(Traces)
             THEN i' = i + Lanes /\ l' = 1 /\ lex' = LexInit /\ p' = 1 /\ S' = ParseInit(Traces[i'].v)
             ELSE i' = Len(Traces) + 1 /\ UNCHANGED <<l, lex, p, S>>
Next == LineStep \/ PairStep \/ Finish
Spec == Init /\ [][Next]_vars

Sound == S.st = "bad" \/ (TypeOK(S) /\ OwnersOK(S) /\ IdsOK(S))
\* lines only add pairs
LexGrows == [][LineStep => Len(lex'.pairs) >= Len(lex.pairs) /\ Len(lex'.pairs) <= Len(lex.pairs) + 1]_vars
=============================================================================
