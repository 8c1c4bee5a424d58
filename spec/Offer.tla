-------------------------------- MODULE Offer --------------------------------
(* What a program may offer for writing as tag-value, or for conversion to     *)
(* another version: a document of a supported version, itself or through any   *)
(* number of pointers, or anything else that Go can say.  A document is        *)
(* written, or converted into a document of the version that the destination   *)
(* has; anything else, and any destination that is not one, is refused, and    *)
(* nothing is written or stored of it, whatever text it holds.                 *)
EXTENDS Naturals, Sequences, TLC, Emit
CONSTANTS MaxPointers, Lengths, Targets
VARIABLES thing,    \* what is offered: [kind, unit, n, ptrs, to]; its text is the unit n times
          out,      \* what has been written or stored: "nothing" or the version of a document
          stage

Documents == {"v21", "v22", "v23"}
Others == {"string", "int", "map", "slice", "package21", "package22", "package23", "file", "snippet", "document-like", "document in a struct", "list of documents", "map of documents", "function", "error"}
Units == {"a", "{{U}}", "{{WIDE}}", "\n", "%s", "{{NUL}}", "\"\\"}
\* "tagvalue" is a writer; a version is an empty destination, "held" one that holds something already; the rest is nothing to convert into
Good == {"tagvalue", "v21", "v22", "v23", "v21 held", "v22 held", "v23 held"}
Bad == {"a value", "a nil pointer", "nothing", "a pointer to a number", "a pointer to a pointer", "a pointer to a part", "a pointer to anything", "a map", "a text"}
ASSUME Targets \subseteq Good \cup Bad
Version(to, kind) == CASE to = "tagvalue" -> kind [] to \in {"v21", "v21 held"} -> "v21" [] to \in {"v22", "v22 held"} -> "v22" [] OTHER -> "v23"
Offers == [kind : Documents \cup Others, unit : Units, n : Lengths, ptrs : 0..MaxPointers, to : Targets]
Wanted(o) == o.kind \in Documents /\ o.to \in Good
Chain == <<"v21", "v22", "v23">>
At(v) == CHOOSE i \in 1..3 : Chain[i] = v

\* at: for a document, the version it has got to on its way along the chain of versions
Init == thing \in Offers /\ out = "nothing" /\ stage = [s |-> "offered", at |-> "none"]
Reach == /\ stage.s = "offered" /\ thing.ptrs > 0 /\ thing' = [thing EXCEPT !.ptrs = @ - 1] /\ UNCHANGED <<out, stage>>
Look == /\ stage.s = "offered" /\ thing.ptrs = 0
        /\ stage' = (IF Wanted(thing) THEN [s |-> "on its way", at |-> thing.kind] ELSE [s |-> "refused", at |-> "none"]) /\ UNCHANGED <<thing, out>>
Convert == /\ stage.s = "on its way" /\ stage.at # Version(thing.to, thing.kind)
           /\ LET i == At(stage.at) j == At(Version(thing.to, thing.kind))
              IN  stage' = [stage EXCEPT !.at = Chain[IF i < j THEN i + 1 ELSE i - 1]]
           /\ UNCHANGED <<thing, out>>
Deliver == /\ stage.s = "on its way" /\ stage.at = Version(thing.to, thing.kind)
           /\ stage' = [stage EXCEPT !.s = "accepted"] /\ out' = stage.at /\ UNCHANGED thing
\* each offer as it was made
Say == /\ stage.s = "offered"
       /\ Emit([k |-> "offer", label |-> thing.kind, kind |-> thing.kind, unit |-> thing.unit, n |-> thing.n, ptrs |-> thing.ptrs, to |-> thing.to,
                want |-> Wanted(thing), version |-> IF Wanted(thing) THEN Version(thing.to, thing.kind) ELSE ""])
       /\ UNCHANGED <<thing, out, stage>>
Next == Reach \/ Look \/ Convert \/ Deliver \/ Say
Spec == Init /\ [][Next]_<<thing, out, stage>> /\ WF_<<thing, out, stage>>(Reach \/ Look \/ Convert \/ Deliver)
RefusedWhole == stage.s = "refused" => out = "nothing"
OnlyDocuments == out # "nothing" => thing.kind \in Documents /\ thing.to \in Good
AsAsked == out # "nothing" => out = Version(thing.to, thing.kind)
Answered == <>(stage.s \in {"accepted", "refused"})
=============================================================================
