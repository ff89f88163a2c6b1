------------------------------- MODULE Names -------------------------------
(* Domain names: a name is a sequence of labels, a label is a byte string.  *)
(* The decoder is a small state machine; one step looks at one length byte. *)
EXTENDS Bytes

MaxName == 255

(* Labels that are empty do not appear on the wire. *)
Solid(n) == SelectSeq(n, LAMBDA l : l # << >>)
NameWire(n) == Cat([i \in 1..Len(n) |-> IF n[i] = << >> THEN << >> ELSE << Len(n[i]) >> \o n[i]]) \o << 0 >>
RECURSIVE SumLen(_, _)
SumLen(n, i) == IF i > Len(n) THEN 0 ELSE (IF n[i] = << >> THEN 0 ELSE 1 + Len(n[i])) + SumLen(n, i + 1)
NameLen(n) == 1 + SumLen(n, 1)
ValidName(n) == NameLen(n) <= MaxName /\ \A i \in 1..Len(n) : Len(n[i]) \in 1..63

(* --- the decoder ------------------------------------------------------- *)
(* pos: next length byte; lim: start of the run of labels being read, every  *)
(* pointer has to lead before it; len: size of the name so far; nxt: offset  *)
(* behind the name's own bytes, -1 while they are still being read.          *)
(* odd: a label of 64..191 bytes was met (tolerated, not standard).          *)
NInit(p) == [pos |-> p, lim |-> p, len |-> 1, lab |-> << >>, nxt |-> -1, st |-> "run", why |-> "", odd |-> FALSE, hop |-> 0]
NRej(s, w) == [s EXCEPT !.st = "rej", !.why = w]
NStep(b, e, s) ==
  IF s.pos >= e THEN NRej(s, "trunc")
  ELSE LET L == b[s.pos + 1] IN
    IF L >= 192 THEN
      IF s.pos + 1 >= e THEN NRej(s, "trunc")
      ELSE LET t == (L - 192) * 256 + b[s.pos + 2] IN
        IF t >= s.lim THEN NRej(s, "ptr")
        ELSE [s EXCEPT !.pos = t, !.lim = t, !.nxt = IF s.nxt = -1 THEN s.pos + 2 ELSE s.nxt, !.hop = s.hop + 1]
    ELSE IF L = 0 THEN [s EXCEPT !.st = "done", !.nxt = IF s.nxt = -1 THEN s.pos + 1 ELSE s.nxt]
    ELSE IF s.pos + 1 + L > e THEN NRej(s, "trunc")
    ELSE IF s.len + 1 + L > MaxName THEN NRej(s, "long")
    ELSE [s EXCEPT !.pos = s.pos + 1 + L, !.len = s.len + 1 + L,
                   !.lab = Append(s.lab, Cut(b, s.pos + 1, L)), !.odd = s.odd \/ L > 63]

RECURSIVE NRun(_, _, _)
NRun(b, e, s) == IF s.st # "run" THEN s ELSE NRun(b, e, NStep(b, e, s))

(* The name at offset p of b, where bytes from offset e on do not exist. *)
Resolve(b, e, p) == NRun(b, e, NInit(p))

(* --- text form ---------------------------------------------------------- *)
Dot == << 46 >>
RECURSIVE JoinFrom(_, _)
JoinFrom(n, i) == IF i > Len(n) THEN << >>
                  ELSE IF i = Len(n) THEN n[i] ELSE n[i] \o Dot \o JoinFrom(n, i + 1)
NameText(n) == JoinFrom(n, 1)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(t, i, cur) ==
  IF i > Len(t) THEN << cur >>
  ELSE IF t[i] = 46 THEN << cur >> \o SplitFrom(t, i + 1, << >>)
  ELSE SplitFrom(t, i + 1, Append(cur, t[i]))
TextName(t) == Solid(SplitFrom(t, 1, << >>))

LocalLabel == << 108, 111, 99, 97, 108 >>      \* "local"
IsRootName(n) == Solid(n) = << >>
IsLinkLocal(n) == n # << >> /\ Last1(n) = LocalLabel
=============================================================================
