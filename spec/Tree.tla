------------------------------- MODULE Tree --------------------------------
(* A directory that changes, and the document built from it.  The tree is     *)
(* grown by the operations of a file system; then it is walked one entry at   *)
(* a time, in any order, and what the walk lists must be what the tree holds. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Ignore, Emit
CONSTANTS Names, Contents, Depth, MaxOps, SIM,
          Many     \* how many files the directory begins with
VARIABLES fs,      \* path -> node
          ops,     \* the operations that made it
          todo,    \* paths the walk still has to look at
          listed,  \* what the walk has listed
          phase    \* grow, walk, done

vars == <<fs, ops, todo, listed, phase>>
Root == <<>>
Dir == [t |-> "dir"]
File(c) == [t |-> "file", c |-> c]
Others == {[t |-> "linkdir"], [t |-> "linkfile"], [t |-> "linknone"], [t |-> "linkup"], [t |-> "fifo"], [t |-> "socket"]}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Under(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
IsDir(f, p) == p = Root \/ (p \in DOMAIN f /\ f[p] = Dir)
Dirs(f) == {Root} \cup {p \in DOMAIN f : f[p] = Dir}
Free(f) == {Append(d, n) : d \in {x \in Dirs(f) : Len(x) < Depth}, n \in Names} \ DOMAIN f
Put(f, p, n) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN n ELSE f[q]]
Drop(f, p) == [q \in {x \in DOMAIN f : x # p /\ ~Under(p, x)} |-> f[q]]
Move(f, p, q) == LET to(x) == IF x = p THEN q ELSE q \o SubSeq(x, Len(p) + 1, Len(x))
                     moved == {x \in DOMAIN f : x = p \/ Under(p, x)}
                     stay == DOMAIN f \ moved
                     new == {to(x) : x \in moved}
                 IN [x \in stay \cup new |-> IF x \in new THEN f[CHOOSE y \in moved : to(y) = x] ELSE f[x]]

\* operations: what is done, and the tree afterwards
Made(f) == {[op |-> "put", at |-> p, node |-> n] : p \in Free(f), n \in {Dir} \cup {File(c) : c \in Contents} \cup Others}
Rewritten(f) == {[op |-> "put", at |-> p, node |-> File(c)] : p \in {x \in DOMAIN f : f[x].t = "file"}, c \in Contents}
Removed(f) == {[op |-> "drop", at |-> p, node |-> Dir] : p \in DOMAIN f}
Moves(f) == {[op |-> "move", at |-> p, node |-> [t |-> "to", p |-> q]] : p \in DOMAIN f, q \in Free(f)}
CanMove(o, f) == ~Under(o.at, o.node.p) /\ o.node.p # o.at
                 /\ \A x \in DOMAIN f : Under(o.at, x) => Len(o.node.p) + Len(x) - Len(o.at) <= Depth
Apply(f, o) == CASE o.op = "put" -> Put(f, o.at, o.node)
                 [] o.op = "drop" -> Drop(f, o.at)
                 [] OTHER -> Move(f, o.at, o.node.p)
AllOps(f) == Made(f) \cup Rewritten(f) \cup Removed(f) \cup {o \in Moves(f) : CanMove(o, f)}

\* what a document built from the tree lists
Regular(f) == {p \in DOMAIN f : f[p].t = "file"}
Listing(f, pats) == {[path |-> "." \o PathText(p), c |-> f[p].c] : p \in {q \in Regular(f) : ~Ignored(pats, q)}}
PatSets == LET n == CHOOSE x \in Names : TRUE IN
  <<<<>>, <<[deep |-> FALSE, slash |-> TRUE, dirs |-> <<n>>, file |-> ""]>>, <<[deep |-> TRUE, slash |-> TRUE, dirs |-> <<>>, file |-> n]>> >>
Wants(f) == [i \in DOMAIN PatSets |-> [pats |-> [j \in DOMAIN PatSets[i] |-> PatternText(PatSets[i][j])], files |-> Listing(f, PatSets[i])]]
Nodes(f) == {[at |-> PathText(p), node |-> f[p]] : p \in DOMAIN f}
OpText(o) == [op |-> o.op, at |-> PathText(o.at), node |-> IF o.op = "move" THEN [t |-> "to", p |-> PathText(o.node.p)] ELSE o.node]
Kinds(f) == LET has(t) == \E p \in DOMAIN f : f[p].t = t IN
  "files" \o ToString(Cardinality(Regular(f))) \o (IF has("dir") THEN " dirs" ELSE "") \o (IF \E p \in DOMAIN f : f[p].t \notin {"file", "dir"} THEN " special" ELSE "")

\* the walk, one entry at a time
Children(f, d) == {p \in DOMAIN f : Parent(p) = d}
Look(p) == /\ phase = "walk" /\ p \in todo
           /\ todo' = (todo \ {p}) \cup (IF IsDir(fs, p) THEN Children(fs, p) ELSE {})
           /\ listed' = IF p # Root /\ fs[p].t = "file" THEN Append(listed, p) ELSE listed
           /\ UNCHANGED <<fs, ops, phase>>
Start == /\ phase = "grow" /\ ~SIM
         /\ phase' = (IF Many = 0 THEN "walk" ELSE "built") /\ todo' = {Root} /\ listed' = <<>> /\ UNCHANGED <<fs, ops>>
         /\ Emit([k |-> "tree", label |-> Kinds(fs), nodes |-> Nodes(fs), wants |-> Wants(fs)])
Finish == /\ phase = "walk" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<fs, ops, todo, listed>>
\* in long histories the document is built only now and then
Checked(n) == MaxOps <= 50 \/ n % 50 = 0 \/ n = MaxOps
\* every tree of up to MaxOps entries, or random histories of MaxOps operations
Grow(o) == /\ phase = "grow"
           /\ fs' = Apply(fs, o)
           /\ IF SIM THEN Len(ops) < MaxOps /\ ops' = Append(ops, [o |-> OpText(o), built |-> Checked(Len(ops) + 1), want |-> IF Checked(Len(ops) + 1) THEN Listing(Apply(fs, o), <<>>) ELSE {}])
                     ELSE Cardinality(DOMAIN fs') <= MaxOps /\ ops' = <<>>
           /\ UNCHANGED <<todo, listed, phase>>
End == /\ phase = "grow" /\ SIM /\ Len(ops) = MaxOps /\ phase' = "done" /\ UNCHANGED <<fs, ops, todo, listed>>
       /\ Emit([k |-> "history", label |-> "history", steps |-> ops])
\* what is not a directory that can be read
Faults == {"missing", "missingbelow", "danglinglink", "belowfile", "toolong", "nul", "closed", "closedbelow", "closedfile", "hashdir", "hashmissing", "none"}
\* many files, each with its own content, some of them in directories
BegunAt(i) == IF i % 3 = 0 THEN <<"f" \o ToString(i)>> ELSE <<"d" \o ToString(i % 10), "f" \o ToString(i)>>
Begun == IF Many = 0 THEN <<>>
         ELSE [p \in {BegunAt(i) : i \in 1..Many} \cup {<<"d" \o ToString(i)>> : i \in 0..9} |-> IF p[1] = p[Len(p)] /\ Ch(p[1], 1) = "d" THEN Dir ELSE File("content of " \o p[Len(p)])]
Init == /\ \A x \in Faults : Emit([k |-> "treeerr", label |-> "cannot be read: " \o x, fault |-> x, err |-> x # "none"])
        /\ fs = Begun /\ ops = <<>> /\ todo = {} /\ listed = <<>> /\ phase = "grow"
Some(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
RandomOp(r, p, q) ==
  LET move == [op |-> "move", at |-> p, node |-> [t |-> "to", p |-> q]]
  IN IF r = 7 /\ fs[p].t = "file" THEN [op |-> "put", at |-> p, node |-> File(RandomElement(Contents))]
     ELSE IF r >= 9 /\ CanMove(move, fs) THEN move
     ELSE [op |-> "drop", at |-> p, node |-> Dir]
\* where deep trees are wanted, entries are added to the deepest directory with room
Deepest(S) == IF Depth < 50 THEN S ELSE {p \in S : \A q \in S : Len(q) <= Len(p)}
RandomNode(r) == IF r <= 4 THEN Dir ELSE IF r <= 9 THEN File(RandomElement(Contents)) ELSE RandomElement(Others)
Next == IF SIM
        THEN \/ End
             \/ \E r \in {IF fs = <<>> THEN 1 ELSE RandomElement(1..10)} : \E q \in Some(Deepest(Free(fs))) :
                  IF r <= 6 THEN \E n \in {RandomNode(RandomElement(1..12))} : Grow([op |-> "put", at |-> q, node |-> n])
                  ELSE \E p \in Some(DOMAIN fs) : \E o \in {RandomOp(r, p, q)} : Grow(o)
        ELSE (\E o \in AllOps(fs) : Grow(o)) \/ Start \/ (\E p \in todo : Look(p)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish \/ \E p \in todo : Look(p))

\* --------------------------------------------------------------------- facts
WellFormed == \A p \in DOMAIN fs : IsDir(fs, Parent(p))
NeverTwice == \A i, j \in DOMAIN listed : listed[i] = listed[j] => i = j
WalkComplete == phase = "done" /\ ~SIM => {listed[i] : i \in DOMAIN listed} = Regular(fs)
WalkEnds == (phase = "walk") ~> (phase = "done")
=============================================================================
