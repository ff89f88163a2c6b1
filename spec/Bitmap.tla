------------------------------- MODULE Bitmap -------------------------------
(* Type bitmaps: every set that can be built type by type (C14).               *)
EXTENDS RData, Json
CONSTANTS UNIV, GEN
VARIABLE T
cf == [m |-> TRUE, d |-> TRUE]
Init == T = {}
Next == \E t \in UNIV \ T : T' = T \cup {t}
Spec == Init /\ [][Next]_T
W(S) == BitmapWire(SortNum(S))
Rd(b) == BitmapRead(b, Len(b), [pos |-> 0, st |-> "ok", T |-> {}, w |-> -1])
Exact == LET r == Rd(W(T)) IN r.st = "ok" /\ r.T = T
(* block by block: number of blocks, their numbers, their length, their last octet *)
RECURSIVE Blocks(_, _)
Blocks(b, p) == IF p >= Len(b) THEN << >> ELSE << << b[p + 1], b[p + 2], b[p + 2 + b[p + 2]] >> >> \o Blocks(b, p + 2 + b[p + 2])
Minimal == LET bl == Blocks(W(T), 0) IN
             /\ Len(bl) = Cardinality({t \div 256 : t \in T})
             /\ \A i \in 1..Len(bl) : bl[i][2] \in 1..32 /\ bl[i][3] # 0
             /\ \A i \in 1..(Len(bl) - 1) : bl[i][1] < bl[i + 1][1]
(* cutting a bitmap short is noticed unless it falls between two blocks *)
CutNoticed == \A k \in 0..(Len(W(T)) - 1) : LET r == Rd(SubSeq(W(T), 1, k)) IN r.st = "rej" \/ (r.T # T /\ r.T \subseteq T)
(* longer blocks are rejected *)
TooLong == Rd(<< 0, 33 >> \o [i \in 1..33 |-> 64]).st = "rej" /\ Rd(<< 0, 32 >> \o [i \in 1..32 |-> 64]).st = "ok"
(* the same set in other arrangements: blocks in reverse order, padded blocks *)
Padded(S) == LET ws == SortNum({t \div 256 : t \in S}) IN
             Cat([i \in 1..Len(ws) |-> LET x == Window(S, ws[Len(ws) + 1 - i]) IN << x[1], 32 >> \o SubSeq(x, 3, Len(x)) \o Zeros(32 - x[2])])
OtherForms == LET r == Rd(Padded(T)) IN r.st # "rej" /\ r.T = T
Cases == GEN => PrintT("@@" \o ToJson([T |-> SortNum(T), w |-> W(T), p |-> Padded(T)]))
=============================================================================
