----------------------------- MODULE VerifCode -----------------------------
(* The package verification code: the SHA1 of the sorted, concatenated SHA1   *)
(* values of the files.  The list of files grows one entry at a time.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Str, Emit, SequencesExt
CONSTANTS Names, Sums, MaxFiles, SIM,
          Every   \* only lists whose length is a multiple of this become tests
VARIABLE files

None == <<>>
Several == {<<x, y>> : x \in Sums, y \in Sums}
\* an entry: its name, its SHA1 if it has one (or all of them, if it has several), and how many other checksums come before and after it
Entries == {[name |-> n, sha1 |-> s, before |-> b, after |-> a] :
              n \in Names, s \in {None} \cup {<<x>> : x \in Sums} \cup Several, b \in 0..1, a \in 0..1}
Nil == [name |-> "", sha1 |-> None, before |-> 0, after |-> 0]

Included(fs, excl) == SelectSeq(fs, LAMBDA e : (excl = "" \/ e.name # excl) /\ e.sha1 # None)
Concat(fs, excl) == LET inc == Included(fs, excl)
                        sums == FlattenSeq([i \in DOMAIN inc |-> inc[i].sha1])
                    IN JoinWith(SortStrs(sums), "")
Excludes == {""} \cup {n \in Names : TRUE} \cup {"./nowhere"}
HasNil(fs) == \E i \in DOMAIN fs : fs[i] = Nil
Told(fs) == IF Every = 1 THEN Excludes ELSE {"", "./nowhere"} \cup {fs[i].name : i \in {1, Len(fs) \div 2, Len(fs)} \cap DOMAIN fs}
Out(fs) == Len(fs) % Every = 0 => \A x \in Told(fs) :
  Emit([k |-> "code", label |-> "code " \o ToString(Len(fs)) \o (IF HasNil(fs) THEN " nil" ELSE IF x = "" THEN "" ELSE IF \E i \in DOMAIN fs : fs[i].name = x THEN " excluded" ELSE " other"),
        files |-> [i \in DOMAIN fs |-> IF fs[i] = Nil THEN <<>> ELSE <<fs[i]>>], excl |-> x,
        want |-> IF HasNil(fs) THEN Err ELSE Ok([text |-> Concat(fs, x), excluded |-> IF x = "" THEN <<>> ELSE <<x>>])])

Init == files = <<>> /\ Out(<<>>)
Free(e) == e = Nil \/ Len(files) = 1 \/ \A i \in DOMAIN files : files[i].name # e.name
Sha1s == {None} \cup {<<x>> : x \in Sums} \cup {<<RandomElement(Sums), RandomElement(Sums)>>, <<RandomElement(Sums), RandomElement(Sums), RandomElement(Sums)>>}
AnyFree == [name |-> RandomElement(IF RandomElement(1..8) = 1 THEN Names ELSE Names \ {files[i].name : i \in DOMAIN files}), sha1 |-> IF RandomElement(1..10) = 1 THEN None ELSE RandomElement(Sha1s),
            before |-> RandomElement(0..1), after |-> RandomElement(0..1)]
Next == /\ Len(files) < MaxFiles
        /\ IF SIM THEN \E e \in {IF Every = 1 /\ RandomElement(1..200) = 1 THEN Nil ELSE AnyFree} : files' = Append(files, e)
                  ELSE \E e \in Entries \cup {Nil} : Free(e) /\ files' = Append(files, e)
        /\ Out(files')
Spec == Init /\ [][Next]_files

\* --------------------------------------------------------------------- facts

Rotate(q) == IF q = <<>> THEN q ELSE SubSeq(q, 2, Len(q)) \o <<q[1]>>
OrderIrrelevant == \A x \in Excludes : Concat(files, x) = Concat(Reverse(files), x) /\ Concat(files, x) = Concat(Rotate(files), x)
OthersIrrelevant == \A x \in Excludes : Concat(files, x) = Concat([i \in DOMAIN files |-> [files[i] EXCEPT !.before = 0, !.after = 1]], x)
ExcludedIrrelevant == \A x \in Excludes \ {""} :
  Concat(files, x) = Concat([i \in DOMAIN files |-> IF files[i].name = x THEN [files[i] EXCEPT !.sha1 = <<"ff">>] ELSE files[i]], x)
=============================================================================
