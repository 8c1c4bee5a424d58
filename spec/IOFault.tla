------------------------------ MODULE IOFault ------------------------------
(* Writing a document to a sink, and reading one from a source, that may     *)
(* fail.  The text has N units; the device follows a plan: where it fails,   *)
(* whether the failing call still transfers what comes before that place,    *)
(* and whether it works again afterwards.  The call under test must not      *)
(* report success unless every unit was transferred and nothing failed.      *)
(*   Mode = "pieces": every way for the device to cut a short text           *)
(*   Mode = "places": every place of a long one                              *)
EXTENDS Sample, Emit
CONSTANTS N, Vers, Mode, Sizes
VARIABLES plan, pos, fired, pieces, res

vars == <<plan, pos, fired, pieces, res>>
Writers == {"tv", "json", "json indented", "yaml", "report"}
Readers == {"tv", "json", "yaml", "rdf"}

\* the RDF text that is read instead is the harness's own, of the same size
Norm(f, v, d) == IF f = "tv" THEN TVNorm(d) ELSE JsonNorm(v, d)

\* ---------------------------------------------------------------------- plans
\* at = N + 1: nothing fails.  A source may fail where its text ends, at N.
NoFault == N + 1
Plans(dir, op, v, size) ==
  [dir : {dir}, op : {op}, v : {v}, size : {size}, at : 0..(IF dir = "write" THEN N - 1 ELSE N), part : BOOLEAN, once : BOOLEAN]
  \cup [dir : {dir}, op : {op}, v : {v}, size : {size}, at : {NoFault}, part : BOOLEAN, once : {FALSE}]
VersionsOf(op) == IF op \in {"rdf", "report"} THEN Vers \ (IF op = "rdf" THEN {21} ELSE {21, 22}) ELSE Vers
AllPlans == UNION {Plans("write", op, v, s) : <<op, v, s>> \in {x \in Writers \X Vers \X Sizes : x[2] \in VersionsOf(x[1])}}
            \cup UNION {Plans("read", op, v, s) : <<op, v, s>> \in {x \in Readers \X Vers \X Sizes : x[2] \in VersionsOf(x[1])}}

\* how many units one call moves: the writer chooses, and the source does
Steps == IF Mode = "pieces" THEN 1..N ELSE {1, N}

\* ----------------------------------------------------------------- behaviours
Label(p) == p.dir \o " " \o p.op \o " " \o ToString(p.v) \o " " \o p.size \o (IF p.at = NoFault THEN " whole" ELSE " fault")
            \o (IF p.part THEN " with data" ELSE "") \o (IF p.once THEN " once" ELSE "")
\* the error a device fails with: its own, or one of those that the standard library defines for that
Errors == <<"device", "unexpected EOF", "wrapped EOF", "closed pipe", "deadline", "broken pipe", "closed", "cancelled", "no progress">>
ErrorOf(p) == Errors[((p.at + p.v + (IF p.once THEN 4 ELSE 0)) % Len(Errors)) + 1]
Case(p, q) == [k |-> "io", dir |-> p.dir, op |-> p.op, v |-> p.v, at |-> p.at, per |-> N, part |-> p.part, once |-> p.once, pieces |-> q, err |-> ErrorOf(p),
               label |-> Label(p), doc |-> Doc(p.v, p.size),
               want |-> IF p.dir = "read" /\ p.op # "rdf" THEN Norm(p.op, p.v, Doc(p.v, p.size)) ELSE <<>>]

Init == /\ plan \in AllPlans
        /\ pos = 0 /\ fired = FALSE /\ pieces = <<>> /\ res = "run"
        /\ (plan.dir = "write" \/ Mode = "places") => Emit(Case(plan, <<>>))

Running == res = "run" /\ plan' = plan
\* the writer hands over c units
Write(c) ==
  /\ Running /\ plan.dir = "write" /\ c <= N - pos /\ pieces' = pieces
  /\ IF plan.at < pos + c
     THEN fired' = TRUE /\ pos' = (IF plan.part THEN plan.at ELSE pos) /\ res' = "error"
     ELSE fired' = fired /\ pos' = pos + c /\ res' = "run"
Written == /\ res = "run" /\ plan.dir = "write" /\ pos = N /\ res' = "ok" /\ UNCHANGED <<plan, pos, fired, pieces>>
\* the source delivers c units, or none; with the last ones it may say that it is over
Limit == IF plan.at <= N THEN plan.at ELSE N
Over == IF plan.at <= N THEN "error" ELSE "ok"
Log(x) == pieces' = IF Mode = "pieces" THEN Append(pieces, x) ELSE pieces
NoneTwice == IF pieces = <<>> THEN TRUE ELSE pieces[Len(pieces)] # 0
Deliver(c) ==
  /\ Running /\ plan.dir = "read" /\ c <= Limit - pos /\ (c = 0 => NoneTwice)
  /\ pos' = pos + c /\ Log(c)
  /\ IF pos + c = Limit /\ plan.part /\ c > 0
     THEN res' = Over /\ fired' = (Over = "error")
     ELSE res' = "run" /\ fired' = fired
\* it is over, and nothing comes with that
End == /\ Running /\ plan.dir = "read" /\ pos = Limit /\ UNCHANGED <<pos, pieces>>
       /\ res' = Over /\ fired' = (Over = "error")
Move == \/ \E c \in Steps : Write(c) \/ Deliver(c)
        \/ (Mode = "pieces" /\ Deliver(0)) \/ End
Next == \/ Written
        \/ Move /\ ((res' # "run" /\ plan.dir = "read" /\ Mode = "pieces") => Emit(Case(plan, pieces')))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------------ properties
Reported == fired => res = "error"
WholeOrError == res = "ok" => pos = N /\ ~fired
NoFalseAlarm == plan.at = NoFault => res # "error"
Returns == <>(res # "run")
=============================================================================
