------------------------------ MODULE ViewOps ------------------------------
(* Views and conversions of record data: what they say, given the data (C23). *)
EXTENDS RData

(* --- text views --------------------------------------------------------------- *)
B64Char(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Group(g) ==      \* one to three octets
  LET x == g[1]
      y == IF Len(g) > 1 THEN g[2] ELSE 0
      z == IF Len(g) > 2 THEN g[3] ELSE 0
  IN << B64Char(x \div 4), B64Char((x % 4) * 16 + (y \div 16)),
        IF Len(g) > 1 THEN B64Char((y % 16) * 4 + (z \div 64)) ELSE 61,
        IF Len(g) > 2 THEN B64Char(z % 64) ELSE 61 >>
Base64(v) == LET n == (Len(v) + 2) \div 3 IN
             Cat([i \in 1..n |-> B64Group(SubSeq(v, 3 * i - 2, MinOf(3 * i, Len(v))))])
HexChar(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexText(v) == Cat([i \in 1..Len(v) |-> << HexChar(v[i] \div 16), HexChar(v[i] % 16) >>])

(* --- addresses as text ----------------------------------------------------------- *)
Dec(n) == IF n < 10 THEN << 48 + n >> ELSE IF n < 100 THEN << 48 + (n \div 10), 48 + (n % 10) >>
          ELSE << 48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10) >>
Dotted(a) == Dec(a[1]) \o << 46 >> \o Dec(a[2]) \o << 46 >> \o Dec(a[3]) \o << 46 >> \o Dec(a[4])
(* the parts of a text between separators *)
Split(s, c) == FoldLeft(LAMBDA a, x : IF x = c THEN Append(a, << >>) ELSE [a EXCEPT ![Len(a)] = Append(a[Len(a)], x)], << << >> >>, s)
DecPart(p) == Len(p) \in 1..3 /\ (\A i \in 1..Len(p) : p[i] \in 48..57) /\ (Len(p) > 1 => p[1] # 48)
DecVal(p) == FoldLeft(LAMBDA a, x : 10 * a + (x - 48), 0, p)
(* << >>: not an address *)
ParseV4(s) == LET ps == Split(s, 46) IN
              IF Len(ps) = 4 /\ (\A i \in 1..4 : DecPart(ps[i]) /\ DecVal(ps[i]) < 256) THEN [i \in 1..4 |-> DecVal(ps[i])] ELSE << >>
IsHex(x) == x \in 48..57 \/ x \in 65..70 \/ x \in 97..102
HexVal(x) == IF x < 58 THEN x - 48 ELSE IF x < 71 THEN x - 55 ELSE x - 87
HexPart(p) == Len(p) \in 1..4 /\ \A i \in 1..Len(p) : IsHex(p[i])
Groups(ps) == Cat([i \in 1..Len(ps) |-> W16(FoldLeft(LAMBDA a, x : 16 * a + HexVal(x), 0, ps[i]))])
(* groups of hexadecimal digits, one run of zero groups may be left out *)
ParseHex6(s) ==
  LET ps == Split(s, 58)
      n == Len(ps)
      empty == {i \in 1..n : ps[i] = << >>}
      good(a, b) == \A i \in a..b : HexPart(ps[i])
  IN IF empty = {} THEN IF n = 8 /\ good(1, 8) THEN Groups(ps) ELSE << >>
     ELSE LET i == CHOOSE i \in 1..n : i > 1 /\ (ps[i] = << >> \/ i = n) /\ \A j \in 2..(i - 1) : ps[j] # << >>   \* the gap
              lead == IF ps[1] = << >> THEN 0 ELSE i - 1        \* groups before it
              tail == IF i < n /\ ps[n] = << >> /\ i + 1 = n THEN 0 ELSE n - i
          IN IF n < 3 \/ i = n \/ ps[i] # << >> THEN << >>
             ELSE IF ps[1] = << >> /\ i # 2 THEN << >>
             ELSE IF ~good(1, lead) \/ (tail > 0 /\ ~good(i + 1, n)) THEN << >>
             ELSE IF lead + tail > 7 THEN << >>
             ELSE Groups(SubSeq(ps, 1, lead)) \o Zeros(2 * (8 - lead - tail)) \o (IF tail > 0 THEN Groups(SubSeq(ps, i + 1, n)) ELSE << >>)
(* the last two groups may be spelled as an IPv4 address *)
LowHex(v) == IF v < 10 THEN v + 48 ELSE v + 87
HexGroup(a, b) == << LowHex(a \div 16), LowHex(a % 16), LowHex(b \div 16), LowHex(b % 16) >>
ParseV6(s) ==
  IF 46 \notin ToSet(s) THEN ParseHex6(s)
  ELSE LET ps == Split(s, 58)
           v == ParseV4(ps[Len(ps)])
           head == SubSeq(s, 1, Len(s) - Len(ps[Len(ps)]))
       IN IF Len(ps) = 1 \/ v = << >> THEN << >>
          ELSE ParseHex6(head \o HexGroup(v[1], v[2]) \o << 58 >> \o HexGroup(v[3], v[4]))

(* --- others ----------------------------------------------------------------------- *)
(* the type a data value announces by itself: CDS and CDNSKEY share the data of DS and DNSKEY *)
OwnType(t) == IF t = 59 THEN 43 ELSE IF t = 60 THEN 48 ELSE t
(* CSYNC flags: a pair of bits *)
FlagStep(w, o) == LET imm == w % 2
                      soa == w \div 2
                  IN IF o[1] = "i" THEN 2 * soa + o[2] ELSE 2 * o[2] + imm
=============================================================================
