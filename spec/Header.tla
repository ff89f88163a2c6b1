------------------------------- MODULE Header -------------------------------
(* The header as a state machine (C05). *)
EXTENDS HeaderOps, Json, IOUtils
CONSTANTS IDS, GEN      \* ids used; GEN: print one case per transition

VARIABLES h
Inits == {HQuery(W16(i), r) : i \in IDS, r \in 0..1} \cup {HReply(W16(i), o) : i \in IDS, o \in 0..3} \cup {HDefault}
Ops == {<< f, v >> : f \in DOMAIN FieldIx, v \in 0..10}
Legal(o) == o[2] \in FieldVals[o[1]]
LegalOps == {o \in Ops : Legal(o)} \cup {<< "id", i >> : i \in IDS}
Init == h \in Inits
Next == \E o \in LegalOps : h' = HSet(h, o[1], o[2])
Spec == Init /\ [][Next]_h

(* getters give the value last set; the other fields keep theirs, up to the couplings *)
Exact == [][\E o \in LegalOps :
             /\ h' = HSet(h, o[1], o[2])
             /\ IF o[1] = "id" THEN h'.id = W16(o[2]) /\ h'.fl = h.fl
                ELSE /\ h'.id = h.id
                     /\ h'.fl[FieldIx[o[1]]] = o[2]
                     /\ \A g \in DOMAIN FieldIx \ {o[1]} :
                          h'.fl[FieldIx[g]] # h.fl[FieldIx[g]] =>
                             \/ o = << "qr", 0 >> /\ g \in {"ra", "rc"} /\ h'.fl[FieldIx[g]] = 0
                             \/ o[1] \in {"rc", "ra"} /\ o[2] # 0 /\ g = "qr" /\ h'.fl[1] = 1]_h
(* a query never carries response-only fields *)
QueryClean == h.fl[1] = 0 => h.fl[6] = 0 /\ h.fl[7] = 0
(* the flag word determines the getters *)
WireExact == FlagsOf(FlagWord(h.fl)) = h.fl /\ \A i \in 1..2 : FlagWord(h.fl)[i] \in 0..255
(* RFC 1035 4.1.1, bit by bit, most significant first *)
Bits(x) == [i \in 1..8 |-> (x \div Pow2[i]) % 2]
Layout == LET w == Bits(FlagWord(h.fl)[1]) \o Bits(FlagWord(h.fl)[2]) IN
            /\ w[1] = h.fl[1] /\ 8 * w[2] + 4 * w[3] + 2 * w[4] + w[5] = h.fl[2]
            /\ w[6] = h.fl[3] /\ w[7] = h.fl[4] /\ w[8] = h.fl[5] /\ w[9] = h.fl[6]
            /\ w[10] = 0 /\ w[11] = 0 /\ w[12] = 0
            /\ 8 * w[13] + 4 * w[14] + 2 * w[15] + w[16] = h.fl[7]
(* one case per reachable flag word: every setter applied to it *)
OpSeq == SetToSeq({o \in LegalOps : o[1] # "id"}) \o << << "id", 4660 >> >>
GenInv == GEN => (h.id # CHOOSE i \in {x.id : x \in Inits} : TRUE) \/
            PrintT("@@" \o ToJson([k |-> "hdrt", g |-> "C05", c |-> [w |-> FlagWord(h.fl), ops |-> OpSeq]]))
=============================================================================
