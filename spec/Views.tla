------------------------------- MODULE Views -------------------------------
(* The text views are faithful: different data give different texts, and the  *)
(* data can be recovered from them; addresses read from text are those that   *)
(* were written; flags are independent (C23).                                  *)
EXTENDS ViewOps
CONSTANTS ALPH, N, TXT, M
VARIABLES v, s, w
vars == << v, s, w >>
Init == v = << >> /\ s = << >> /\ w = 0
Next == \/ \E x \in ALPH : Len(v) < N /\ s = << >> /\ v' = Append(v, x) /\ UNCHANGED << s, w >>
        \/ \E x \in TXT : Len(s) < M /\ v = << >> /\ w = 0 /\ s' = Append(s, x) /\ UNCHANGED << v, w >>
        \/ \E k \in {"i", "s"}, b \in 0..1 : s = << >> /\ v = << >> /\ w' = FlagStep(w, << k, b >>) /\ UNCHANGED << v, s >>
Spec == Init /\ [][Next]_vars

B64Val(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> 0
Unbase(t) == LET n == Len(t) \div 4
                 pad == IF t = << >> THEN 0 ELSE IF t[Len(t) - 1] = 61 THEN 2 ELSE IF t[Len(t)] = 61 THEN 1 ELSE 0
                 all == Cat([i \in 1..n |-> LET q == [j \in 1..4 |-> B64Val(t[4 * (i - 1) + j])]
                                            IN << 4 * q[1] + (q[2] \div 16), (q[2] % 16) * 16 + (q[3] \div 4), (q[3] % 4) * 64 + q[4] >>])
             IN SubSeq(all, 1, 3 * n - pad)
Faithful == /\ Unbase(Base64(v)) = v
            /\ Len(Base64(v)) = 4 * ((Len(v) + 2) \div 3)
            /\ \A i \in 1..Len(Base64(v)) : Base64(v)[i] \in (65..90 \cup 97..122 \cup 48..57 \cup {43, 47, 61})
            /\ Len(HexText(v)) = 2 * Len(v)
            /\ Cat([i \in 1..Len(v) |-> << HexVal(HexText(v)[2 * i - 1]) * 16 + HexVal(HexText(v)[2 * i]) >>]) = v
Address == Len(v) = 4 => ParseV4(Dotted(v)) = v
(* every text is one address or none *)
Texts == /\ ParseV4(s) # << >> => Len(ParseV4(s)) = 4 /\ Dotted(ParseV4(s)) = s
         /\ ParseV6(s) # << >> => Len(ParseV6(s)) = 16 /\ \A i \in 1..16 : ParseV6(s)[i] \in 0..255
Bits == w \in 0..3
Independent == [][w' # w => (w' % 2 = w % 2 \/ w' \div 2 = w \div 2)]_vars
=============================================================================
