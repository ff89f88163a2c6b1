------------------------------- MODULE Canon -------------------------------
(* Letter case in record sets: the owner name and the members' names are       *)
(* respelled letter by letter (C16, C17).                                       *)
EXTENDS RrsetOps, Json
CONSTANTS TYPES, OWNERS
VARIABLES own, t, mem, own0, mem0
vars == << own, t, mem, own0, mem0 >>
Owners1 == {<< >>, << << 97, 66 >>, << 90, 45 >> >>, << << 96, 123, 193 >>, << 97 >> >>}
N2 == << 0, 9 >>
Name(x) == << x, << 64, 91 >> >>        \* the neighbours of the letters stay as they are
F(ty, n) ==
  CASE ty \in {2, 5, 12} -> << n >>
    [] ty = 6 -> << n, n >> \o [i \in 1..5 |-> << 0, 0, 0, i >>]
    [] ty = 14 -> << n, n >>
    [] ty = 15 -> << N2, n >>
    [] ty = 33 -> << N2, N2, N2, n >>
    [] ty = 35 -> << N2, N2, << 83 >>, << 65 >>, << 65 >>, n >>
    [] ty = 46 -> << << 0, 1 >>, << 8 >>, << 2 >>, << 0, 0, 0, 1 >>, << 0, 0, 0, 1 >>, << 0, 0, 0, 1 >>, N2, n, << 65 >> >>
    [] ty = 47 -> << n, << 1 >> >>
    [] ty = 64 -> << N2, n, << >> >>
Init == /\ own \in OWNERS /\ t \in TYPES
        /\ mem \in {<< << 97 >>, << 98 >> >>, << << 66 >>, << 97 >> >>, << << 90 >>, << 122 >> >>}
        /\ own0 = own /\ mem0 = mem
Swapped(x) == IF x \in 65..90 THEN x + 32 ELSE IF x \in 97..122 THEN x - 32 ELSE x
FlipOwn == \E i \in 1..Len(own) : own' = [own EXCEPT ![i] = [j \in 1..Len(own[i]) |-> Swapped(own[i][j])]] /\ UNCHANGED << t, mem, own0, mem0 >>
FlipMem == \E i \in 1..Len(mem) : mem' = [mem EXCEPT ![i] = << Swapped(mem[i][1]) >>] /\ UNCHANGED << own, t, own0, mem0 >>
Turn == mem' = << mem[2], mem[1] >> /\ UNCHANGED << own, t, own0, mem0 >>
Next == FlipOwn \/ FlipMem \/ Turn
Spec == Init /\ [][Next]_vars
W(o, m) == SetWire(o, t, 1, << 0, 0, 0, 1 >>, Datas(t, [i \in 1..Len(m) |-> [t |-> t, f |-> F(t, Name(m[i]))]], {}))
(* the case of the owner never matters, that of the members for the listed types *)
OwnerFree == W(own, mem) = W(own0, mem)
Listed == {2, 5, 6, 12, 14, 15, 33, 35, 46}
LowBag(m) == {LowerLabel(m[1]), LowerLabel(m[2])}
MemberFree == IF t \in Listed THEN W(own, mem) = W(own, mem0)
              ELSE (W(own, mem) = W(own, mem0)) <=> ({mem[1], mem[2]} = {mem0[1], mem0[2]})
Sizes == Len(W(own, mem)) = Len(W(own0, mem0))
Members == LowBag(mem) = LowBag(mem0)
=============================================================================
