-------------------------------- MODULE Str --------------------------------
(* Character-level string operators (TLC implements Len, SubSeq and \o on    *)
(* strings).  Everything that the specification says about concrete syntax   *)
(* is said with these.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* results that may be errors
Err == [err |-> TRUE]
Ok(x) == [ok |-> x]
IsErr(x) == "err" \in DOMAIN x

Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, sub, i) ==
  IF i + Len(sub) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(sub) - 1) = sub THEN i
  ELSE IndexFrom(s, sub, i + 1)
IndexOf(s, sub) == IndexFrom(s, sub, 1)
HasSub(s, sub) == IndexOf(s, sub) # 0

\* <<s>> if sub does not occur, else <<before, after>> at the first occurrence
SplitFirst(s, sub) ==
  LET i == IndexOf(s, sub)
  IN IF i = 0 THEN <<s>>
     ELSE <<SubSeq(s, 1, i - 1), SubSeq(s, i + Len(sub), Len(s))>>

\* s up to the last occurrence of the character c (all of s if there is none)
BeforeLast(s, c) ==
  LET is == {i \in 1..Len(s) : Ch(s, i) = c}
  IN IF is = {} THEN s
     ELSE SubSeq(s, 1, (CHOOSE i \in is : \A j \in is : j <= i) - 1)

RECURSIVE SplitAll(_, _)
SplitAll(s, sub) ==
  LET p == SplitFirst(s, sub)
  IN IF Len(p) = 1 THEN <<s>> ELSE <<p[1]>> \o SplitAll(p[2], sub)

IsWs(c) == c \in {" ", "\t", "\n", "\r", "\f"}
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF Len(s) > 0 /\ IsWs(Ch(s, 1)) THEN TrimLeft(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF Len(s) > 0 /\ IsWs(Ch(s, Len(s))) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimLeft(TrimRight(s))

TrimPrefix(s, p) == IF StartsWith(s, p) THEN SubSeq(s, Len(p) + 1, Len(s)) ELSE s

\* the blank-separated words of s
Words(s) == LET p == SplitAll(s, " ")
                t == [i \in DOMAIN p |-> Trim(p[i])]
            IN SelectSeq(t, LAMBDA w : w # "")

RECURSIVE JoinWith(_, _)
JoinWith(q, sep) ==
  IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1]
  ELSE q[1] \o sep \o JoinWith(Tail(q), sep)

Digits == <<"0","1","2","3","4","5","6","7","8","9">>
DigitVal(c) == CHOOSE d \in 0..9 : Digits[d + 1] = c
IsDigit(c) == \E d \in 0..9 : Digits[d + 1] = c
OnlyDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
\* of ten digits, those up to the largest that TLC has
MaxNat == "2147483647"
UpToMax(s) == \A i \in 1..10 : (\A j \in 1..(i - 1) : Ch(s, j) = Ch(MaxNat, j)) => DigitVal(Ch(s, i)) <= DigitVal(Ch(MaxNat, i))
IsNumber(s) == OnlyDigits(s) /\ (Len(s) < 10 \/ (Len(s) = 10 /\ UpToMax(s)))
RECURSIVE ToNat(_)
ToNat(s) == IF Len(s) = 1 THEN DigitVal(s)
            ELSE 10 * ToNat(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))

RECURSIVE RepeatStr(_, _)
RepeatStr(s, n) == IF n = 0 THEN "" ELSE s \o RepeatStr(s, n - 1)

\* Order of identifiers, checksums and licence expressions: the order of the
\* bytes, for the characters that they are made of.
IdAlphabet == " ()+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
Ranks == [c \in {Ch(IdAlphabet, i) : i \in 1..Len(IdAlphabet)} |-> IndexOf(IdAlphabet, c)]
CharRank(c) == Ranks[c]
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  IF b = "" THEN FALSE
  ELSE IF a = "" THEN TRUE
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
  ELSE CharRank(Ch(a, 1)) < CharRank(Ch(b, 1))
Insert(q, x) ==   \* x into the ascending sequence q, after its equals
  LET n == Cardinality({i \in DOMAIN q : ~StrLess(x, q[i])})
  IN SubSeq(q, 1, n) \o <<x>> \o SubSeq(q, n + 1, Len(q))
RECURSIVE SortStrs(_)
SortStrs(q) == IF q = <<>> THEN <<>> ELSE Insert(SortStrs(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
RECURSIVE SetToSorted(_)
SetToSorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : ~StrLess(z, y) IN <<x>> \o SetToSorted(S \ {x})
=============================================================================
