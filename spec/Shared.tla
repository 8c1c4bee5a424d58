------------------------------- MODULE Shared -------------------------------
(* Several goroutines work on one document that none of them changes, or     *)
(* read inputs of their own.  A call looks at the document, may stop at a    *)
(* gate (the sink or source it is using keeps it waiting), looks again, and  *)
(* returns.  Each must return what it returns alone.                         *)
(*   Mode = "free":  all goroutines start together and run as they may       *)
(*   Mode = "cold":  likewise, as the first use of the library in a process  *)
(*   Mode = "gates": every order of starting and resuming them               *)
(* InPlace = TRUE makes tag-value writing sort the caller's lists, which is  *)
(* what the code does to a document whose lists are not sorted.              *)
EXTENDS Sample, Emit
CONSTANTS G, Vers, Mode, InPlace, Orders, SIM
VARIABLES v, order, ops, pc, first, res, doc, sched

vars == <<v, order, ops, pc, first, res, doc, sched>>
OpSeq == <<"write tv", "write tv value", "write json", "write json indented", "write yaml", "report", "read tv", "read json", "read yaml", "read rdf",
           "convert 21", "convert 22", "convert 23", "diff", "described", "validate", "filter", "code">>
Ops == {OpSeq[i] : i \in DOMAIN OpSeq}
\* the calls that use a sink or a source, and so can be kept waiting
Gated == {"write tv", "write tv value", "write json", "write json indented", "write yaml", "report", "read tv", "read json", "read yaml", "read rdf"}
Shares(op) == op \notin {"read tv", "read json", "read yaml", "read rdf"}
TagValue == {"write tv", "write tv value"}
\* what a call sees of the document: its lists in their order
Sorted == <<"p", "q">>
Start0 == IF order = "sorted" THEN Sorted ELSE <<"q", "p">>
See(op, d) == IF ~Shares(op) THEN "its own" ELSE IF op \in TagValue THEN Sorted ELSE d
Alone(op) == <<See(op, Start0), See(op, Start0)>>

NoRes == <<>>
Versions_ == Vers
Init ==
  /\ v \in Vers /\ order \in Orders
  /\ ops = <<>> /\ pc = <<>> /\ first = <<>> /\ res = <<>> /\ doc = Start0 /\ sched = <<>>

\* the goroutines are chosen, in no particular order
Rank == [op \in Ops |-> CHOOSE i \in DOMAIN OpSeq : OpSeq[i] = op]
Allowed(op) == v = 23 \/ op \notin {"report", "diff", "described", "validate", "filter", "code"}
Choose == /\ Len(ops) < G /\ sched = <<>>
          /\ \E op \in (IF SIM THEN {RandomElement({o \in Ops : Allowed(o)})} ELSE {o \in Ops : Allowed(o)}) :
               /\ IF SIM \/ ops = <<>> THEN TRUE ELSE Rank[ops[Len(ops)]] <= Rank[op]
               /\ ops' = Append(ops, op) /\ pc' = Append(pc, "idle") /\ first' = Append(first, NoRes) /\ res' = Append(res, NoRes)
          /\ UNCHANGED <<v, order, doc, sched>>
Ready == Len(ops) = G

DocAfter(op) == IF InPlace /\ op \in TagValue THEN Sorted ELSE doc
StartIt(g) ==
  /\ pc[g] = "idle"
  /\ doc' = DocAfter(ops[g])
  /\ first' = [first EXCEPT ![g] = <<See(ops[g], doc')>>]
  /\ IF ops[g] \in Gated THEN pc' = [pc EXCEPT ![g] = "gate"] /\ res' = res
     ELSE pc' = [pc EXCEPT ![g] = "done"] /\ res' = [res EXCEPT ![g] = <<See(ops[g], doc'), See(ops[g], doc')>>]
  /\ sched' = Append(sched, g) /\ UNCHANGED <<v, order, ops>>
Resume(g) ==
  /\ pc[g] = "gate"
  /\ res' = [res EXCEPT ![g] = first[g] \o <<See(ops[g], doc)>>]
  /\ pc' = [pc EXCEPT ![g] = "done"] /\ sched' = Append(sched, g) /\ UNCHANGED <<v, order, ops, first, doc>>

Finished == Ready /\ \A g \in 1..G : pc'[g] = "done"
Label == ToString(v) \o " " \o order \o " " \o Mode \o " " \o (IF G = 2 THEN ops[1] \o " | " \o ops[2] ELSE ToString(G) \o " calls")
Out(gate) == Emit([k |-> "shared", v |-> v, doc |-> Doc(v, "small"), sorted |-> order = "sorted", ops |-> ops, sched |-> sched', gate |-> gate,
                   mode |-> Mode, label |-> Label, key |-> IF order # "sorted" /\ \E g \in 1..G : ops[g] \in TagValue THEN "tagvalue-sorts-caller-lists" ELSE ""])
\* two goroutines are started before the first is resumed: else they do not overlap
Overlap == \E g, h \in 1..G : g # h /\ pc[g] = "gate" /\ pc[h] # "idle"
Gates == /\ Mode = "gates" /\ Ready
         /\ \E g \in (IF SIM THEN {RandomElement({x \in 1..G : pc[x] # "done"} \cup (IF \A x \in 1..G : pc[x] = "done" THEN {0} ELSE {}))} ELSE 1..G) :
              /\ g # 0 /\ (StartIt(g) \/ Resume(g))
         /\ Finished => \A gate \in 1..2 : Out(gate)
Free == /\ Mode \in {"free", "cold"} /\ Ready /\ sched = <<>> /\ \A g \in 1..G : pc[g] = "idle"
        /\ sched' = [g \in 1..G |-> g] /\ pc' = [g \in 1..G |-> "done"]
        /\ doc' = (IF \E g \in 1..G : DocAfter(ops[g]) # doc THEN Sorted ELSE doc)
        /\ res' = [g \in 1..G |-> <<See(ops[g], doc'), See(ops[g], doc')>>] /\ first' = first
        /\ UNCHANGED <<v, order, ops>>
        /\ Out(1)
Next == Choose \/ Gates \/ Free
Spec == Init /\ [][Next]_vars

AsAlone == \A g \in DOMAIN ops : res[g] # NoRes => res[g] = Alone(ops[g])
Unchanged == doc = Start0
=============================================================================
