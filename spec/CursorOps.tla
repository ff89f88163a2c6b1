----------------------------- MODULE CursorOps -----------------------------
(* The read cursor. The state is a stack of views << pos, end >> on one buffer *)
(* b; the top one is the active (sub-)buffer. A negative argument -k stands     *)
(* for the k-th largest machine word.                                           *)
EXTENDS Names, Codes

CInit(b) == << << 0, Len(b) >> >>
Top(st) == Last1(st)
SetPos(st, p) == [st EXCEPT ![Len(st)] = << p, st[Len(st)][2] >>]
Fits(n, room) == n >= 0 /\ n <= room

(* COut: ok, bytes read, stack afterwards. loose: the position afterwards is   *)
(* not determined (a failed variable-size read).                               *)
COut(ok, v, st, loose) == [ok |-> ok, v |-> v, st |-> st, loose |-> loose]
CRead(b, st, n) ==
  LET t == Top(st) IN
  IF Fits(n, t[2] - t[1]) THEN COut(TRUE, Cut(b, t[1], n), SetPos(st, t[1] + n), FALSE) ELSE COut(FALSE, << >>, st, FALSE)
CApply(b, st, o, cf) ==
  LET t == Top(st)
      room == t[2] - t[1]
      n == o[2]
  IN
  CASE o[1] = "u8" -> CRead(b, st, 1)
    [] o[1] = "u16" -> CRead(b, st, 2)
    [] o[1] = "u32" -> CRead(b, st, 4)
    [] o[1] = "u16as" -> LET r == CRead(b, st, 2) IN
                         IF ~r.ok THEN r
                         ELSE IF U16(r.v) \in RTypes(cf) THEN r ELSE COut(FALSE, << >>, st, TRUE)
    [] o[1] = "take" -> CRead(b, st, n)
    [] o[1] = "peek" -> LET r == CRead(b, st, n) IN COut(r.ok, r.v, st, FALSE)
    [] o[1] = "adv" -> LET r == CRead(b, st, n) IN COut(r.ok, << >>, r.st, FALSE)
    [] o[1] = "seek" -> IF Fits(n, t[2]) THEN COut(TRUE, << >>, SetPos(st, n), FALSE) ELSE COut(FALSE, << >>, st, FALSE)
    [] o[1] \in {"cstr", "str"} ->
         IF room < 1 THEN COut(FALSE, << >>, st, TRUE)
         ELSE LET k == b[t[1] + 1] IN
           IF k + 1 > room THEN COut(FALSE, << >>, st, TRUE)
           ELSE LET v == Cut(b, t[1] + 1, k) IN
             IF o[1] = "str" /\ ~IsUtf8(v) THEN COut(FALSE, << >>, st, TRUE)
             ELSE COut(TRUE, v, SetPos(st, t[1] + 1 + k), FALSE)
    \* a name: the view bounds what can be read, pointers may lead to anything in front
    [] o[1] = "name" -> LET r == Resolve(b, t[2], t[1]) IN
                        IF r.st = "rej" THEN COut(FALSE, << >>, st, TRUE)
                        ELSE COut(TRUE, NameWire(r.lab), SetPos(st, r.nxt), r.odd)
    [] o[1] = "sub" -> IF Fits(n, room) THEN COut(TRUE, SubSeq(b, 1, t[1] + n), Append(st, << t[1], t[1] + n >>), FALSE)
                       ELSE COut(FALSE, << >>, st, FALSE)
    [] o[1] = "pop" -> IF Len(st) > 1 THEN COut(TRUE, << >>, SubSeq(st, 1, Len(st) - 1), FALSE) ELSE COut(TRUE, << >>, st, FALSE)
=============================================================================
