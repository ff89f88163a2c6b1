------------------------------ MODULE RrsetOps ------------------------------
(* Record sets in canonical form (RFC 4034, 6.2 and 6.3, RFC 6840, 5.1), and    *)
(* what a signature covers.                                                     *)
EXTENDS Message

ByteLess(a, b) == LexCmp(a, b) < 0
LowerLabel(l) == [i \in 1..Len(l) |-> IF l[i] \in 65..90 THEN l[i] + 32 ELSE l[i]]
LowerName(n) == [i \in 1..Len(n) |-> LowerLabel(n[i])]
(* the fields of each type that hold names of which the letter case is dropped *)
CanonNames(t) ==
  CASE t \in {2, 5, 12} -> {1}
    [] t \in {6, 14} -> {1, 2}
    [] t = 15 -> {2}
    [] t = 33 -> {4}
    [] t = 35 -> {6}
    [] t = 46 -> {8}
    [] OTHER -> {}
CanonData(t, f) == LET s == CanonNames(t) IN [i \in 1..Len(f) |-> IF i \in s THEN LowerName(f[i]) ELSE f[i]]
Datas(t, ds, D) == [i \in 1..Len(ds) |-> RWire(t, CanonData(t, ds[i].f), D)]
Canonical(ws) == SortSeq(ws, ByteLess)
SetWire(n, t, c, ttl, ws) ==
  LET o == Canonical(ws)
      h == NameWire(LowerName(n)) \o W16(t) \o W16(c) \o ttl
  IN Cat([i \in 1..Len(o) |-> h \o W16(Len(o[i])) \o o[i]])
RrsetWire(s, D) == SetWire(s.n, s.t, s.c, s.ttl, Datas(s.t, s.ds, D))

(* RFC 4034, appendix B: a checksum of the key record, and for RSA/MD5 keys two octets of the modulus *)
KeySum(k) ==
  LET pair(i) == IF i % 2 = 1 THEN 256 * k[i] ELSE k[i]
      sum == FoldLeft(LAMBDA a, i : a + pair(i), 0, [i \in 1..Len(k) |-> i])
  IN (sum + (sum \div 65536)) % 65536
KeyTag(k) == IF Len(k) >= 7 /\ k[4] = 1 THEN 256 * k[Len(k) - 2] + k[Len(k) - 1] ELSE KeySum(k)
(* the number of labels in a signature record leaves the asterisk of a wildcard out (RFC 4034, 3.1.3) *)
SigLabels(n) == IF n # << >> /\ n[1] = << 42 >> THEN Len(n) - 1 ELSE Len(n)

(* Bytes covered by a signature record with fields f over the set s. *)
SigInput(f, s, D) == f[1] \o f[2] \o f[3] \o f[4] \o f[5] \o f[6] \o f[7] \o NameWire(LowerName(f[8])) \o RrsetWire(s, D)
=============================================================================
