------------------------------- MODULE Bytes -------------------------------
(* Byte strings: sequences of 0..255. Offsets are 0-based as on the wire;   *)
(* a position p denotes the byte b[p+1].                                    *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

U16(b) == b[1] * 256 + b[2]
W16(n) == << n \div 256, n % 256 >>
Cut(b, p, n) == SubSeq(b, p + 1, p + n)        \* n bytes at offset p
Zeros(n) == [i \in 1..n |-> 0]
Last1(s) == s[Len(s)]
Cat(ss) == FlattenSeq(ss)

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

(* lexicographic order on sequences of naturals *)
LexCmp(a, b) ==
  LET n == MinOf(Len(a), Len(b))
      same == \A i \in 1..n : a[i] = b[i]
  IN IF same THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0)
     ELSE LET k == CHOOSE i \in 1..n : (a[i] # b[i]) /\ (\A j \in 1..(i - 1) : a[j] = b[j])
          IN IF a[k] < b[k] THEN -1 ELSE 1

(* lexicographic order on sequences of byte strings *)
RECURSIVE LexLabels(_, _, _)
LexLabels(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == LexCmp(a[i], b[i]) IN IF c # 0 THEN c ELSE LexLabels(a, b, i + 1)
NameCmp(a, b) == LexLabels(a, b, 1)

(* UTF-8. Utf8Step(b, i) looks at the sequence that starts at index i:      *)
(* [ok, n] n bytes form a character, or n bytes form a maximal ill-formed   *)
(* prefix (Unicode 3.9, substitution of maximal subparts).                  *)
InR(b, i, lo, hi) == i <= Len(b) /\ b[i] >= lo /\ b[i] <= hi
Utf8Step(b, i) ==
  LET c == b[i]
      two(lo, hi) == IF InR(b, i+1, lo, hi) THEN [ok |-> TRUE, n |-> 2] ELSE [ok |-> FALSE, n |-> 1]
      three(lo, hi) == IF ~InR(b, i+1, lo, hi) THEN [ok |-> FALSE, n |-> 1]
                       ELSE IF InR(b, i+2, 128, 191) THEN [ok |-> TRUE, n |-> 3] ELSE [ok |-> FALSE, n |-> 2]
      four(lo, hi) == IF ~InR(b, i+1, lo, hi) THEN [ok |-> FALSE, n |-> 1]
                      ELSE IF ~InR(b, i+2, 128, 191) THEN [ok |-> FALSE, n |-> 2]
                      ELSE IF InR(b, i+3, 128, 191) THEN [ok |-> TRUE, n |-> 4] ELSE [ok |-> FALSE, n |-> 3]
  IN IF c < 128 THEN [ok |-> TRUE, n |-> 1]
     ELSE IF c < 194 THEN [ok |-> FALSE, n |-> 1]
     ELSE IF c < 224 THEN two(128, 191)
     ELSE IF c = 224 THEN three(160, 191)
     ELSE IF c = 237 THEN three(128, 159)
     ELSE IF c < 240 THEN three(128, 191)
     ELSE IF c = 240 THEN four(144, 191)
     ELSE IF c < 244 THEN four(128, 191)
     ELSE IF c = 244 THEN four(128, 143)
     ELSE [ok |-> FALSE, n |-> 1]

RECURSIVE Utf8From(_, _)
Utf8From(b, i) == IF i > Len(b) THEN TRUE
                  ELSE LET s == Utf8Step(b, i) IN s.ok /\ Utf8From(b, i + s.n)
Ascii(b) == \A i \in 1..Len(b) : b[i] < 128
IsUtf8(b) == Ascii(b) \/ Utf8From(b, 1)

RECURSIVE LossyFrom(_, _, _)
LossyFrom(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET s == Utf8Step(b, i)
       IN LossyFrom(b, i + s.n, acc \o (IF s.ok THEN SubSeq(b, i, i + s.n - 1) ELSE << 239, 191, 189 >>))
Lossy(b) == IF IsUtf8(b) THEN b ELSE LossyFrom(b, 1, << >>)
=============================================================================
