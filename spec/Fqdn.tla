-------------------------------- MODULE Fqdn --------------------------------
(* Names as values, built label by label (C19).                               *)
EXTENDS Names, Json
CONSTANTS LABELS, MAXL, GEN
VARIABLES n, m
vars == << n, m >>
Init == n = << >> /\ m = << >>
Next == \/ \E l \in LABELS : Len(n) < MAXL /\ n' = Append(n, l) /\ UNCHANGED m
        \/ \E l \in LABELS : Len(m) < MAXL /\ m' = Append(m, l) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Plain(x) == \A i \in 1..Len(x) : x[i] # << >> /\ \A j \in 1..Len(x[i]) : x[i][j] # 46
TextBack == Plain(n) => TextName(NameText(n)) = n
TextSame == Plain(n) /\ Plain(m) => (NameText(n) = NameText(m) <=> n = m)
SizeIs == NameLen(n) = Len(NameWire(n))
WireBack == LET r == Resolve(NameWire(n), Len(NameWire(n)), 0) IN r.st = "done" /\ r.lab = Solid(n) /\ r.nxt = NameLen(n)
Order == /\ NameCmp(n, m) = -NameCmp(m, n)
         /\ (NameCmp(n, m) = 0 <=> n = m)
         /\ \A l \in LABELS : NameCmp(n, Append(n, l)) = -1
         /\ \A a, b \in LABELS : LexCmp(a, b) # 0 => NameCmp(<< a >> \o n, << b >> \o m) = LexCmp(a, b)
Trans == \A l \in LABELS : LET x == << l >> IN NameCmp(n, m) <= 0 /\ NameCmp(m, x) <= 0 => NameCmp(n, x) <= 0
Root == IsRootName(n) <=> NameWire(n) = << 0 >>
Ls == {<< >>, << 97 >>, << 97, 98 >>, << 98 >>, << 65 >>, LocalLabel, << 255, 0 >>}
Ls2 == Ls \cup {<< 97, 46, 98 >>, << 46 >>, << 195, 169 >>, << 195, 40 >>}
Cases == GEN => PrintT("@@" \o ToJson([n |-> n, m |-> m]))
=============================================================================
