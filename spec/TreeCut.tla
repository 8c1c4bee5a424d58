------------------------------ MODULE TreeCut ------------------------------
(* The text of a JSON document: an object, which nothing less and nothing    *)
(* more than it denotes. Space around it is no part of it. YAML in flow style *)
(* is the same, but a reader of YAML need not look beyond the end.            *)
EXTENDS FullDoc, Emit
CONSTANT Vers
VARIABLES v, before, after, verdict
vars == <<v, before, after, verdict>>

Space == <<"", "{{NL}}", " ", "\t ", "{{CR}}{{NL}}", " {{NL}}{{NL}} ">>
Junk == <<"}", "]", "x", "{}", "{", "[", ",", ":", "null", "1", "\"\"", "//c", "/* c */", "{{NUL}}", "{{CTL}}", "{\"spdxVersion\": \"SPDX-2.3\"}">>
Texts == Space \o Junk
IsSpace(i) == i <= Len(Space)
\* what YAML in flow style says of them too
Flow(i) == i \in 1..3
\* with parts: each part of the text from its start, by itself
Init == /\ v \in Vers /\ before = 1 /\ after = 1 /\ verdict = "doc"
        /\ Emit([k |-> "treecut", v |-> v, tree |-> JsonTree(v, FullDoc(v)), want |-> FullDoc(v),
                 before |-> "", after |-> "", parts |-> TRUE, flow |-> TRUE, verdict |-> "doc"])
Wrap(i, j) == /\ before' = i /\ after' = j /\ verdict' = (IF IsSpace(i) /\ IsSpace(j) THEN "doc" ELSE "reject") /\ UNCHANGED v
              /\ Emit([k |-> "treecut", v |-> v, tree |-> JsonTree(v, FullDoc(v)), want |-> FullDoc(v), verdict |-> verdict',
                       before |-> Texts[i], after |-> Texts[j], parts |-> FALSE, flow |-> Flow(i) /\ Flow(j)])
Next == before = 1 /\ after = 1 /\ \E i, j \in DOMAIN Texts : (i = 1 \/ j = 1 \/ i = j) /\ <<i, j>> # <<1, 1>> /\ Wrap(i, j)
Spec == Init /\ [][Next]_vars

OnlySpace == verdict = "doc" <=> (IsSpace(before) /\ IsSpace(after))
NeverMended == [][verdict = "reject" => verdict' = "reject"]_vars
=============================================================================
