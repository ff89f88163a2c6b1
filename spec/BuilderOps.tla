----------------------------- MODULE BuilderOps -----------------------------
(* A packet as its sections and its header. Entries are tokens. hc are the    *)
(* counts kept in the header object: every way to replace or edit a section    *)
(* or the header acts on them in its own way, and they must not matter.        *)
EXTENDS HeaderOps

NoCounts == << 0, 0, 0, 0 >>
BState(h, s, hc) == [id |-> h.id, fl |-> h.fl, s |-> s, hc |-> hc]
BInit(i) ==          \* i = << kind, id, rd, questions >>
  CASE i[1] = "q" -> BState(HQuery(W16(i[2]), i[3]), << << >>, << >>, << >>, << >> >>, NoCounts)
    [] i[1] = "r" -> BState(HReply(W16(i[2]), 0), << << >>, << >>, << >>, << >> >>, NoCounts)
    [] i[1] = "d" -> BState(HDefault, << << >>, << >>, << >>, << >> >>, NoCounts)
    [] i[1] = "w" -> BState(HQuery(W16(i[2]), i[3]), << i[4], << >>, << >>, << >> >>, NoCounts)

Lens(p) == [i \in 1..4 |-> Len(p.s[i])]
PutSec(p, i, v) == [p EXCEPT !.s[i] = v, !.hc[i] = Len(v)]
EditQ(p, v) == [p EXCEPT !.s[1] = v]           \* through the mutable reference
PutHead(p, h, hc) == [p EXCEPT !.id = h.id, !.fl = h.fl, !.hc = hc]
R(p, ret) == [p |-> p, ret |-> ret]

BApply(p, o) ==
  CASE o[1] = "addq" -> R(PutSec(p, 1, Append(p.s[1], o[2])), << >>)
    [] o[1] = "setq" -> R(PutSec(p, 1, o[2]), << >>)
    [] o[1] = "takeq" -> R(PutSec(p, 1, << >>), p.s[1])
    [] o[1] = "qpush" -> R(EditQ(p, Append(p.s[1], o[2])), << >>)
    [] o[1] = "qpop" -> IF p.s[1] = << >> THEN R(p, << >>)
                        ELSE R(EditQ(p, SubSeq(p.s[1], 1, Len(p.s[1]) - 1)), << Last1(p.s[1]) >>)
    [] o[1] = "qclear" -> R(EditQ(p, << >>), << >>)
    [] o[1] = "qins" -> R(EditQ(p, << o[2] >> \o p.s[1]), << >>)
    [] o[1] = "add" -> R(PutSec(p, o[2] + 1, p.s[o[2] + 1] \o [j \in 1..o[4] |-> o[3]]), << >>)
    [] o[1] = "set" -> R(PutSec(p, o[2] + 1, o[3]), << >>)
    [] o[1] = "take" -> R(PutSec(p, o[2] + 1, << >>), p.s[o[2] + 1])
    [] o[1] = "hq" -> R(PutHead(p, HQuery(W16(o[2]), o[3]), NoCounts), << >>)
    [] o[1] = "hr" -> R(PutHead(p, HReply(W16(o[2]), o[3]), NoCounts), << >>)
    [] o[1] = "hp" -> R(PutHead(p, HReply(W16(o[2]), 0), [i \in 1..4 |-> o[3]]), << >>)
    [] o[1] = "hx" -> R(PutHead(p, [id |-> W16(o[2]), fl |-> << 1, 0, 1, 0, 0, 0, 0 >>],
                                [i \in 1..4 |-> U16(SubSeq(o[3], 1 + 2 * i, 2 + 2 * i))]), << >>)
    [] o[1] = "hw" -> R(PutHead(p, [id |-> W16(o[2]), fl |-> o[3]],
                                [i \in 1..4 |-> U16(SubSeq(o[4], 2 * i - 1, 2 * i))]), << >>)
    [] o[1] = "hf" -> LET h == HSet([id |-> p.id, fl |-> p.fl], o[2], o[3]) IN
                      R(PutHead(p, h, p.hc), << >>)
    [] o[1] = "fl" -> LET h == HSet([id |-> p.id, fl |-> p.fl], o[2], o[3]) IN
                      R([p EXCEPT !.id = h.id, !.fl = h.fl], << >>)
    [] o[1] = "clone" -> R(p, << 1 >>)
    [] o[1] = "dup" -> R(p, << >>)
    [] o[1] \in {"rt", "rz"} -> R([p EXCEPT !.hc = Lens(p)], << 1 >>)
=============================================================================
