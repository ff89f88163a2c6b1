------------------------------- MODULE Rdata -------------------------------
(* The formats of record data: a value is written, possibly cut or framed      *)
(* differently, and read (C02, C08, C09, C10, C21).                             *)
EXTENDS Values, Json
CONSTANTS DNSSEC, GEN
VARIABLES t, f, ph, n
vars == << t, f, ph, n >>
cf == [m |-> TRUE, d |-> DNSSEC]
Init == t \in RTypes(cf) /\ f \in Values(t, cf) /\ ph = "written" /\ n = Len(RWire(t, f, {}))
Cut1 == ph # "long" /\ n > 0 /\ n' = n - 1 /\ ph' = "cut" /\ UNCHANGED << t, f >>
Extend == ph = "written" /\ n' = n + 2 /\ ph' = "long" /\ UNCHANGED << t, f >>
Next == Cut1 \/ Extend
Spec == Init /\ [][Next]_vars
W == RWire(t, f, {})
Before == << 1, 97, 0 >>
After == << 1, 97, 0, 9, 9, 0 >>
(* the data bytes are the first n of W and what follows in the message *)
Msg == Before \o W \o After
Got == RRead(t, Msg, 3, 3 + n, cf)
OwnForm == ph = "written" => Got.st = "ok" /\ SameF(t, f, Got.f) /\ Got.pos = 3 + Len(W)
(* a value is never completed from the bytes behind the data *)
Confined == LET r == RRead(t, Before \o SubSeq(Msg, 4, 3 + n), 3, 3 + n, cf) IN r.st = Got.st /\ (r.st # "rej" => r.f = Got.f)
(* a cut is noticed: rejected, or the value read is a shorter one that is written like that *)
CutNoticed == ph = "cut" /\ Got.st = "ok" => ~SameF(t, f, Got.f) /\ RWire(t, Got.f, {}) = SubSeq(W, 1, n)
FixedSize == ph = "cut" /\ (\A i \in 1..Len(Schema(t)) : Schema(t)[i].k \in {"fix", "name", "cs", "csu", "csf", "code"}) => Got.st = "rej"
LongNoticed == ph = "long" => Got.st = "rej" \/ Got.st = "may" \/ ~SameF(t, f, Got.f)
Bytes8 == \A i \in 1..Len(W) : W[i] \in 0..255
Cases == GEN => (ph = "written" => PrintT("@@" \o ToJson([t |-> t, f |-> f, w |-> W])))
GenNext == UNCHANGED vars
=============================================================================
