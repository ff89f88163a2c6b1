------------------------------- MODULE Rrset -------------------------------
(* Record sets whose members are rearranged, one swap at a time (C16).        *)
EXTENDS RrsetOps, Json
CONSTANTS DATA, SIZE, GEN
VARIABLES mem, first
vars == << mem, first >>
Lists == UNION {[1..k -> DATA] : k \in 1..SIZE}
Init == mem \in Lists /\ first = mem
Swap(i) == mem' = [mem EXCEPT ![i] = mem[i + 1], ![i + 1] = mem[i]] /\ UNCHANGED first
Next == \E i \in 1..(Len(mem) - 1) : Swap(i)
Spec == Init /\ [][Next]_vars
Own == << << 97 >>, << 98 >> >>
S(ws) == SetWire(Own, 10, 1, << 0, 0, 1, 44 >>, ws)
OrderFree == S(mem) = S(first)
Sorted == LET c == Canonical(mem) IN \A i \in 1..(Len(c) - 1) : LexCmp(c[i], c[i + 1]) <= 0
Kept == LET c == Canonical(mem) IN Len(c) = Len(mem) /\ \A x \in DATA :
          Cardinality({i \in 1..Len(c) : c[i] = x}) = Cardinality({i \in 1..Len(mem) : mem[i] = x})
(* read one record after the other, the serialisation gives the members back *)
RECURSIVE Members(_, _)
Members(b, p) ==
  IF p = Len(b) THEN << >>
  ELSE LET r == Resolve(b, Len(b), p)
           n == U16(Cut(b, r.nxt + 8, 2))
       IN << Cut(b, r.nxt + 10, n) >> \o Members(b, r.nxt + 10 + n)
Readable == Members(S(mem), 0) = Canonical(mem)
Data1 == {<< >>, << 0 >>, << 1 >>, << 1, 0 >>, << 0, 255 >>, << 255 >>}
Cases == GEN => (mem = first => PrintT("@@" \o ToJson(mem)))
GenNext == UNCHANGED vars
=============================================================================
