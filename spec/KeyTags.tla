------------------------------ MODULE KeyTags ------------------------------
(* The key tag of RFC 4034 appendix B as its loop, octet by octet (C18).      *)
EXTENDS RrsetOps, Json
CONSTANTS ALPH, N, GEN
VARIABLES key, ac
vars == << key, ac >>
Init == key = << >> /\ ac = 0
Next == \E x \in ALPH : Len(key) < N /\ key' = Append(key, x)
           /\ ac' = ac + (IF Len(key) % 2 = 1 THEN x ELSE x * 256)
Spec == Init /\ [][Next]_vars
Fold(a) == (a + ((a \div 65536) % 65536)) % 65536
Agrees == /\ KeySum(key) = Fold(ac) /\ KeyTag(key) \in 0..65535
          /\ (Len(key) < 7 \/ key[4] # 1) => KeyTag(key) = Fold(ac)
          /\ (Len(key) >= 7 /\ key[4] = 1) => W16(KeyTag(key)) = SubSeq(key, Len(key) - 2, Len(key) - 1)
(* swapping two octets of the same parity does not matter, of different parity it does *)
Parity == Len(key) >= 2 /\ key[1] # key[2] /\ Len(key) = 2 => KeyTag(key) # KeyTag(<< key[2], key[1] >>)
=============================================================================
