------------------------------- MODULE Equal -------------------------------
(* Equality of questions and records (C24): two entries are equal exactly if  *)
(* all their parts are, and that is exactly the distinction their wire forms   *)
(* make. DESIGN names a comparison; all but "parts" are known-bad designs.     *)
EXTENDS EntryOps, RrsetOps, Json
CONSTANTS DESIGN, GEN
VARIABLES x, y
vars == << x, y >>

la == << 97 >>
lA == << 65 >>
lb == << 98 >>
NamesQ == {<< >>, << la >>, << lA >>, << la, lb >>, << lb, la >>, << << 97, 98 >> >>, << << 97, 46, 98 >> >>}
TtlsQ == {<< 0, 0, 0, 1 >>, << 1, 0, 0, 0 >>}
Par(k, v) == << W16(k), v >>
DatasQ == {[t |-> 1, f |-> << << 1, 2, 3, 4 >> >>], [t |-> 1, f |-> << << 1, 2, 3, 5 >> >>], [t |-> 10, f |-> << << 1, 2, 3, 4 >> >>],
           [t |-> 12, f |-> << << la >> >>], [t |-> 12, f |-> << << lA >> >>], [t |-> 5, f |-> << << la >> >>],
           [t |-> 16, f |-> << << << 97 >>, << 98 >> >> >>], [t |-> 16, f |-> << << << 97, 98 >> >> >>], [t |-> 16, f |-> << << << 98 >>, << 97 >> >> >>],
           [t |-> 64, f |-> << << 0, 1 >>, << >>, << Par(3, << << 1, 187 >> >>), Par(2, << >>) >> >>],
           [t |-> 64, f |-> << << 0, 1 >>, << >>, << Par(2, << >>), Par(3, << << 1, 187 >> >>) >> >>],
           [t |-> 64, f |-> << << 0, 1 >>, << >>, << Par(3, << << 1, 187 >> >>) >> >>],
           [t |-> 64, f |-> << << 0, 1 >>, << >>, << Par(3, << << 1, 188 >> >>) >> >>]}
Qs == [k : {"q"}, n : NamesQ, t : {1, 28, 255}, c : {1, 3, 255}, u : {0, 1}]
Rs == {[k |-> "r", n |-> n, t |-> d.t, c |-> c, u |-> u, ttl |-> v, d |-> d] :
       n \in NamesQ, c \in {1, 512}, u \in {0, 1}, v \in TtlsQ, d \in DatasQ}
NearQ(e) == {f \in Qs : Cardinality({p \in {"n", "t", "c", "u"} : f[p] # e[p]}) <= 1}
NearR(e) == {f \in Rs : Cardinality({p \in {"n", "c", "u", "ttl", "d"} : f[p] # e[p]}) <= 1}

Init == x \in Qs \cup Rs /\ y = x
(* the second value becomes one that differs in at most one part *)
Next == /\ y = x
        /\ y' \in (IF IsRec(x) THEN NearR(x) ELSE NearQ(x))
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

RECURSIVE Dotted(_)
Dotted(n) == IF n = << >> THEN << >> ELSE Head(n) \o << 46 >> \o Dotted(Tail(n))
Eq(e, f) ==
  CASE DESIGN = "parts" -> EqE(e, f)
    [] DESIGN = "fold" -> EqE([e EXCEPT !.n = LowerName(@)], [f EXCEPT !.n = LowerName(@)])
    [] DESIGN = "text" -> EqE([e EXCEPT !.n = Dotted(@)], [f EXCEPT !.n = Dotted(@)])
    [] DESIGN = "ttl" -> IF IsRec(e) THEN EqE([e EXCEPT !.ttl = 0], [f EXCEPT !.ttl = 0]) ELSE EqE(e, f)
    [] DESIGN = "bit" -> EqE([e EXCEPT !.u = 0], [f EXCEPT !.u = 0])
    [] DESIGN = "order" -> e = f
Distinguishes == Eq(x, y) <=> EWire(x) = EWire(y)
Reflexive == Eq(x, x) /\ Eq(y, y)
Symmetric == Eq(x, y) <=> Eq(y, x)
Emit == GEN => PrintT("@@" \o ToJson(<< x, y' >>))
=============================================================================
