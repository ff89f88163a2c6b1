----------------------------- MODULE HeaderOps -----------------------------
(* Header fields and the operations on them. h = [id, fl] with               *)
(* fl = << qr, opcode, aa, tc, rd, ra, rcode >>.                              *)
EXTENDS Message

HQuery(id, rd) == [id |-> id, fl |-> << 0, 0, 0, 0, rd, 0, 0 >>]
HReply(id, op) == [id |-> id, fl |-> << 1, op, 0, 0, 0, 0, 0 >>]
HDefault == [id |-> << 0, 0 >>, fl |-> << 0, 0, 0, 0, 0, 0, 0 >>]
FieldIx == [qr |-> 1, op |-> 2, aa |-> 3, tc |-> 4, rd |-> 5, ra |-> 6, rc |-> 7]
FieldVals == [qr |-> 0..1, op |-> 0..3, aa |-> 0..1, tc |-> 0..1, rd |-> 0..1, ra |-> 0..1, rc |-> 0..10]

(* Set field f (or "id") to v. *)
HSet(h, f, v) ==
  IF f = "id" THEN [h EXCEPT !.id = W16(v)]
  ELSE LET x == [h.fl EXCEPT ![FieldIx[f]] = v]
           y == IF f = "qr" /\ v = 0 THEN [x EXCEPT ![6] = 0, ![7] = 0]
                ELSE IF f \in {"rc", "ra"} /\ v # 0 THEN [x EXCEPT ![1] = 1] ELSE x
       IN [h EXCEPT !.fl = y]
=============================================================================
