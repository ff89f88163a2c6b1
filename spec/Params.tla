------------------------------- MODULE Params -------------------------------
(* Service parameters and EDNS options, put together in any order; one length   *)
(* may then be changed (C21).                                                    *)
EXTENDS RData, Json
CONSTANTS MAXP, GEN
VARIABLES ps, os
vars == << ps, os >>
cf == [m |-> TRUE, d |-> TRUE]
Pool == {<< W16(0), << W16(1), W16(4) >> >>, << W16(1), << << 104, 50 >>, << 104 >> >> >>, << W16(2), << >> >>, << W16(3), << << 1, 187 >> >> >>,
         << W16(4), << << 10, 0, 0, 1 >> >> >>, << W16(5), << << 1, 2, 3 >> >> >>, << W16(6), << [i \in 1..16 |-> i] >> >>,
         << W16(65280), << << >> >> >>, << W16(65281), << << 0, 3, 0, 2, 9 >> >> >>, << W16(65534), << << 7 >> >> >>}
OPool == {<< W16(3), << >> >>, << W16(8), << 0, 3, 0, 0 >> >>, << W16(10), << 1 >> >>, << W16(65535), << 0, 10 >> >>}
Keys(l) == {l[i][1] : i \in 1..Len(l)}
Init == ps = << >> /\ os = << >>
Next == \/ \E x \in Pool : Len(ps) < MAXP /\ x[1] \notin Keys(ps) /\ ps' = Append(ps, x) /\ UNCHANGED os
        \/ \E x \in OPool : ps = << >> /\ x[1] \notin Keys(os) /\ os' = Append(os, x) /\ UNCHANGED ps
Spec == Init /\ [][Next]_vars
PRd(b) == ParamsRead(b, Len(b), cf, [pos |-> 0, st |-> "ok", ps |-> << >>, many |-> FALSE])
ORd(b) == OptsRead(b, Len(b), [pos |-> 0, st |-> "ok", os |-> << >>])
Loose == Cat([i \in 1..Len(ps) |-> ParamWire(ps[i])])          \* in the given order
SameParams == PRd(ParamsWire(ps)).st = "ok" /\ PRd(ParamsWire(ps)).ps = SortParams(ps)
AnyOrder == PRd(Loose).st = "ok" /\ PRd(Loose).ps = ps
RECURSIVE KeyList(_, _)
KeyList(b, p) == IF p >= Len(b) THEN << >> ELSE << Cut(b, p, 2) >> \o KeyList(b, p + 4 + U16(Cut(b, p + 2, 2)))
Increasing == LET ks == KeyList(ParamsWire(ps), 0) IN Len(ks) = Len(ps) /\ \A i \in 1..(Len(ks) - 1) : NumLess(ks[i], ks[i + 1])
SameOpts == ORd(OptsWire(os)).st = "ok" /\ ORd(OptsWire(os)).os = os
(* changing the length of parameter i by d is never read as the same parameters *)
At(i) == Len(Cat([j \in 1..(i - 1) |-> ParamWire(ps[j])])) + 2
Bump(b, o, d) == [b EXCEPT ![o + 2] = (@ + d) % 256]
LengthsMatter == \A i \in 1..Len(ps) : \A d \in {1, 255} :
                   LET r == PRd(Bump(Loose, At(i), d)) IN r.st = "rej" \/ r.ps # ps
OAt(i) == Len(Cat([j \in 1..(i - 1) |-> OptWire(os[j])])) + 2
OLengthsMatter == \A i \in 1..Len(os) : \A d \in {1, 255} : LET r == ORd(Bump(OptsWire(os), OAt(i), d)) IN r.st = "rej" \/ r.os # os
Cases == GEN => PrintT("@@" \o ToJson([ps |-> ps, os |-> os]))
=============================================================================
