------------------------------ MODULE EntryOps ------------------------------
(* Questions and records as values that are edited part by part. An entry is  *)
(* [k: "q" or "r", n, t, c, u] and, for records, ttl and d.                    *)
EXTENDS Message

IsRec(e) == e.k = "r"
Entry(k, v) == IF k = "r" THEN [k |-> k, n |-> v.n, t |-> v.t, c |-> v.c, u |-> v.u, ttl |-> v.ttl, d |-> v.d]
               ELSE [k |-> k, n |-> v.n, t |-> v.t, c |-> v.c, u |-> v.u]
(* data whose single field is reachable in place: addresses and pointers *)
InnerTypes == {1, 12, 28}
EApply(e, o) ==
  CASE o[1] = "n" -> [e EXCEPT !.n = o[2]]
    [] o[1] = "t" -> [e EXCEPT !.t = o[2]]
    [] o[1] = "c" -> [e EXCEPT !.c = o[2]]
    [] o[1] = "u" -> [e EXCEPT !.u = o[2]]
    [] o[1] = "ttl" -> [e EXCEPT !.ttl = o[2]]
    [] o[1] \in {"d", "dm"} -> [e EXCEPT !.d = o[2]]
    [] o[1] = "im" -> IF o[2].t = e.d.t /\ e.d.t \in InnerTypes THEN [e EXCEPT !.d = o[2]] ELSE e
    [] o[1] = "app" -> [e EXCEPT !.n = Append(e.n, o[2])]
    [] o[1] = "lab" -> IF o[2] < Len(e.n) THEN [e EXCEPT !.n[o[2] + 1] = o[3]] ELSE e
    [] o[1] \in {"clone", "dup", "rt"} -> e
(* the part of an entry an operation names *)
EPart(o) == CASE o[1] \in {"n", "app", "lab"} -> "n" [] o[1] \in {"d", "dm", "im"} -> "d"
              [] o[1] \in {"clone", "dup", "rt"} -> "" [] OTHER -> o[1]
EWire(e) == IF IsRec(e) THEN RecWire(e, {}) ELSE QWire(e)
(* equality: all parts are equal; parameters and options are sets *)
EqD(d, g) == d.t = g.t /\ SameF(d.t, d.f, g.f)
EqE(e, f) == /\ e.k = f.k /\ e.n = f.n /\ e.t = f.t /\ e.c = f.c /\ e.u = f.u
             /\ IsRec(e) => (e.ttl = f.ttl /\ EqD(e.d, f.d))
EqSec(k, s, r) == Len(s) = Len(r) /\ \A i \in 1..Len(s) : EqE(Entry(k, s[i]), Entry(k, r[i]))
EqP(p, q) == /\ p.id = q.id /\ p.fl = q.fl /\ EqSec("q", p.qd, q.qd)
             /\ EqSec("r", p.an, q.an) /\ EqSec("r", p.ns, q.ns) /\ EqSec("r", p.ar, q.ar)
(* the packet with the entry in it twice *)
EPacket(e) == [id |-> << 0, 1 >>, fl |-> << 0, 0, 0, 0, 0, 0, 0 >>,
               qd |-> IF IsRec(e) THEN << >> ELSE << e, e >>, an |-> IF IsRec(e) THEN << e, e >> ELSE << >>,
               ns |-> << >>, ar |-> << >>]
=============================================================================
