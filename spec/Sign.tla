-------------------------------- MODULE Sign --------------------------------
(* Signing and verifying a record set with an ideal signature scheme (C17): a   *)
(* signature is the pair of key and covered bytes. An adversary changes one      *)
(* component after the other. COVER drops something from the covered bytes       *)
(* (known-bad designs).                                                          *)
EXTENDS RrsetOps, Json
CONSTANTS COVER, STEPS
VARIABLES set, f, key, sig, k
vars == << set, f, key, sig, k >>

A == << 97 >>
B == << 98 >>
NamesS == {<< A >>, << B, A >>, << >>}
DatasS == {<< 1 >>, << 1, 0 >>, << 1, 1, 0 >>}
D(x) == [t |-> 10, f |-> << x >>]
Sets == [n : NamesS, t : {10}, c : {1, 3}, ttl : {<< 0, 0, 0, 1 >>, << 1, 0, 0, 0 >>},
         ds : UNION {[1..m -> {D(x) : x \in DatasS}] : m \in 1..3}]
Fields(s, inc) == << W16(s.t), << 8 >>, << Len(s.n) >>, s.ttl, << 0, 0, 0, 9 >>, inc, << 7, 7 >>, s.n >>
Covered(g, s) ==
  CASE COVER = "all" -> SigInput(g, s, {})
    [] COVER = "nottl" -> SigInput([g EXCEPT ![4] = << >>], [s EXCEPT !.ttl = << >>], {})
    [] COVER = "nosigner" -> g[1] \o g[2] \o g[3] \o g[4] \o g[5] \o g[6] \o g[7] \o RrsetWire(s, {})
    [] COVER = "nolen" -> LET h == NameWire(s.n) \o W16(s.t) \o W16(s.c) \o s.ttl IN
         g[1] \o g[2] \o g[3] \o g[4] \o g[5] \o g[6] \o g[7] \o NameWire(g[8]) \o h \o Cat(Canonical(Datas(s.t, s.ds, {})))
    [] COVER = "dedupe" -> SigInput(g, [s EXCEPT !.ds = SetToSeq({s.ds[i] : i \in 1..Len(s.ds)})], {})
    [] COVER = "unsorted" -> g[1] \o g[2] \o g[3] \o g[4] \o g[5] \o g[6] \o g[7] \o NameWire(g[8]) \o
         Cat([i \in 1..Len(s.ds) |-> NameWire(s.n) \o W16(s.t) \o W16(s.c) \o s.ttl \o W16(Len(RWire(s.t, s.ds[i].f, {}))) \o RWire(s.t, s.ds[i].f, {})])
Sig(x, g, s) == << x, Covered(g, s) >>
Verify(x, sg, g, s) == sg = Sig(x, g, s)

Orig == [n |-> << B, A >>, t |-> 10, c |-> 1, ttl |-> << 0, 0, 0, 1 >>, ds |-> << D(<< 1, 0 >>), D(<< 1 >>) >>]
Inc == << 0, 0, 0, 5 >>
Init == set = Orig /\ f = Fields(Orig, Inc) /\ key = 1 /\ sig = Sig(1, Fields(Orig, Inc), Orig) /\ k = 0
Step == k < STEPS /\ k' = k + 1
ChangeSet == Step /\ \E s \in Sets : set' = s /\ UNCHANGED << f, key, sig >>
ChangeField == Step /\ \E i \in 1..8 :
   /\ f' = CASE i = 1 -> [f EXCEPT ![1] = << 0, 16 >>] [] i = 2 -> [f EXCEPT ![2] = << 13 >>] [] i = 3 -> [f EXCEPT ![3] = << 9 >>]
             [] i = 4 -> [f EXCEPT ![4] = << 1, 0, 0, 0 >>] [] i = 5 -> [f EXCEPT ![5] = << 0, 0, 9, 0 >>] [] i = 6 -> [f EXCEPT ![6] = << 5, 0, 0, 0 >>]
             [] i = 7 -> [f EXCEPT ![7] = << 7, 8 >>] [] i = 8 -> [f EXCEPT ![8] = << A >>]
   /\ UNCHANGED << set, key, sig >>
ChangeKey == Step /\ key' = 3 - key /\ UNCHANGED << set, f, sig >>
Permute == Step /\ Len(set.ds) = 2 /\ set' = [set EXCEPT !.ds = << set.ds[2], set.ds[1] >>] /\ UNCHANGED << f, key, sig >>
Next == ChangeSet \/ ChangeField \/ ChangeKey \/ Permute
Spec == Init /\ [][Next]_vars

Bag(s) == [x \in {s.ds[i] : i \in 1..Len(s.ds)} |-> Cardinality({i \in 1..Len(s.ds) : s.ds[i] = x})]
Genuine == key = 1 /\ f = Fields(Orig, Inc) /\ set.n = Orig.n /\ set.t = Orig.t /\ set.c = Orig.c /\ set.ttl = Orig.ttl /\ Bag(set) = Bag(Orig)
Exactly == Verify(key, sig, f, set) <=> Genuine
=============================================================================
