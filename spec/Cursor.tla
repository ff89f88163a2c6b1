------------------------------- MODULE Cursor -------------------------------
(* All operation sequences on one buffer (C12). *)
EXTENDS CursorOps, Json
CONSTANTS BUF, DEPTH, GEN
VARIABLES st, last, out
vars == << st, last, out >>
cf == [m |-> TRUE, d |-> TRUE]
Args == (0..(Len(BUF) + 1)) \cup {65536} \cup {-1, -2, -(Len(BUF) + 1)}
Ops == {<< k, 0 >> : k \in {"u8", "u16", "u32", "u16as", "cstr", "str", "name", "pop"}}
       \cup {<< k, n >> : k \in {"take", "peek", "adv", "seek", "sub"}, n \in Args}
Init == st = CInit(BUF) /\ last = << "init", 0 >> /\ out = << >>
Next == \E o \in Ops :
          /\ (o[1] = "sub" => Len(st) < DEPTH)
          /\ (o[1] = "pop" => Len(st) > 1)
          /\ LET r == CApply(BUF, st, o, cf) IN
               /\ out' = r.v /\ last' = o
               /\ IF r.loose THEN \E q \in Top(st)[1]..Top(st)[2] : st' = SetPos(st, q) ELSE st' = r.st
Spec == Init /\ [][Next]_vars

InBounds == \A i \in 1..Len(st) : 0 <= st[i][1] /\ st[i][1] <= st[i][2] /\ st[i][2] <= Len(BUF)
Nested == \A i \in 1..(Len(st) - 1) : st[i + 1][2] <= st[i][2]
ReadsExact == [][last'[1] \in {"u8", "u16", "u32", "take"} /\ out' # << >> =>
                  /\ out' = SubSeq(BUF, Top(st)[1] + 1, Top(st')[1])
                  /\ Top(st')[1] - Top(st)[1] = Len(out')]_vars
PeekStays == [][last'[1] = "peek" => st' = st]_vars
SubStays == [][last'[1] = "sub" => SubSeq(st', 1, Len(st)) = st]_vars
PopRestores == [][last'[1] = "pop" => st' = SubSeq(st, 1, Len(st) - 1)]_vars
View == st
(* failed variable-size reads end at an unspecified position: not used to walk on *)
Emit == GEN => PrintT("@@" \o ToJson(<< st, last', IF CApply(BUF, st, last', cf).loose THEN << >> ELSE st' >>))
=============================================================================
