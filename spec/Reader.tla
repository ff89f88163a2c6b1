------------------------------- MODULE Reader -------------------------------
(* The message reader, entry by entry, on messages that are written plainly or  *)
(* compressed and then possibly cut, extended or given other counts or lengths  *)
(* (C01, C02, C03, C10, C11).                                                   *)
EXTENDS Message, Json
CONSTANTS RICH, SIZE
VARIABLES p, b, how, s, todo
vars == << p, b, how, s, todo >>
cf == [m |-> TRUE, d |-> TRUE]

(* --- a compressing writer: greedy, knows every suffix it spelled --------------- *)
ZName(z, n, comp) ==
  LET hit == {i \in 1..Len(n) : comp /\ \E k \in z.known : k.n = SubSeq(n, i, Len(n))}
      i == IF hit = {} THEN Len(n) + 1 ELSE CHOOSE x \in hit : \A y \in hit : x <= y
      lab(j) == Cat([m \in 1..(j - 1) |-> << Len(n[m]) >> \o n[m]])
      at == IF hit = {} THEN 0 ELSE (CHOOSE k \in z.known : k.n = SubSeq(n, i, Len(n))).at
      tail == IF hit = {} THEN << 0 >> ELSE << 192 + (at \div 256), at % 256 >>
  IN [b |-> z.b \o lab(i) \o tail,
      known |-> z.known \cup {[n |-> SubSeq(n, j, Len(n)), at |-> Len(z.b) + Len(lab(j))] : j \in {j \in 1..(i - 1) : Len(z.b) + Len(lab(j)) < 16384}}]
ZPut(z, v) == [z EXCEPT !.b = z.b \o v]
ZPart(z, x) == CASE x.k = "b" -> ZPut(z, x.v) [] x.k = "n" -> ZName(z, x.v, TRUE) [] x.k = "o" -> ZPut(z, OptsWire(x.v))
ZRec(z, r) ==
  LET h == ZPut(ZName(z, r.n, TRUE), W16(r.t) \o ClassWord(r.c, r.u) \o r.ttl \o << 0, 0 >>)
      d == FoldLeft(ZPart, h, Parts(r.d.t, r.d.f, {}))
      n == W16(Len(d.b) - Len(h.b))
  IN [d EXCEPT !.b = [d.b EXCEPT ![Len(h.b) - 1] = n[1], ![Len(h.b)] = n[2]]]
ZWire(q) ==
  FoldLeft(ZRec, FoldLeft(LAMBDA z, x : ZPut(ZName(z, x.n, TRUE), W16(x.t) \o ClassWord(x.c, x.u)),
                          [b |-> Header(q), known |-> {}], q.qd), Records(q)).b

(* --- small packets --------------------------------------------------------------- *)
A == << 97 >>
B == << 98 >>
Q(n, u) == [n |-> n, t |-> 255, c |-> 1, u |-> u]
Rec(n, t, f, c, u) == [n |-> n, t |-> t, c |-> c, u |-> u, ttl |-> << 1, 2, 3, 4 >>, d |-> [t |-> t, f |-> f]]
Qs == {Q(<< A, B >>, 0), Q(<< >>, 1)}
Rs == {Rec(<< A, B >>, 15, << << 1, 2 >>, << B, A, B >> >>, 1, 1), Rec(<< B >>, 1, << << 1, 2, 3, 4 >> >>, 3, 0),
       Rec(<< >>, 41, << << << << 0, 3 >>, << 5 >> >> >> >>, 4096, 0),
       Rec(<< B, A, B >>, 64, << << 0, 1 >>, << A, B >>, << << << 0, 3 >>, << << 1, 187 >> >> >> >> >>, 1, 0)}
      \cup (IF RICH THEN {Rec(<< A >>, 6, << << A, B >>, << A, A >>, << 1, 1, 1, 1 >>, << 2, 2, 2, 2 >>, << 3, 3, 3, 3 >>, << 4, 4, 4, 4 >>, << 5, 5, 5, 5 >> >>, 1, 0),
                          Rec(<< B >>, 10, << << >> >>, 1, 0), Rec(<< A, B >>, 62, << << 0, 0, 0, 1 >>, << 0, 3 >>, << 1, 257 >> >>, 1, 0)} ELSE {})
Up(S, k) == {<< >>} \cup {<< x >> : x \in S} \cup (IF k > 1 THEN {<< x, y >> : x \in S, y \in S} ELSE {})
Packets == {[id |-> << 18, 52 >>, fl |-> << 1, 2, 0, 1, 1, 1, 3 >>, qd |-> x, an |-> y, ns |-> z, ar |-> w] :
              x \in Up(Qs, IF RICH THEN 2 ELSE 1), y \in Up(Rs, SIZE), z \in Up(Rs, IF RICH THEN 1 ELSE 0) \cap {<< >>, << Rec(<< B >>, 1, << << 1, 2, 3, 4 >> >>, 3, 0) >>}, w \in Up(Rs, 1)}

(* --- tampering --------------------------------------------------------------------- *)
Wire(q, z) == IF z = "plain" THEN PlainWire(q, {}) ELSE ZWire(q)
SetCount(x, i, n) == [x EXCEPT ![4 + 2 * i] = n]
Tampers(x) == {<< "none", 0 >>, << "extend", 0 >>} \cup {<< "cut", k >> : k \in 0..(Len(x) - 1)} \cup {<< "more", i >> : i \in 1..4} \cup {<< "less", i >> : i \in 1..4}
Apply(x, t) == CASE t[1] = "none" -> x
                 [] t[1] = "extend" -> x \o << 0, 0, 1, 192, 12 >>
                 [] t[1] = "cut" -> SubSeq(x, 1, t[2])
                 [] t[1] = "more" -> SetCount(x, t[2], x[4 + 2 * t[2]] + 1)
                 [] t[1] = "less" -> SetCount(x, t[2], MaxOf(0, x[4 + 2 * t[2]] - 1))
S0 == [pos |-> 12, st |-> "ok", why |-> "", id |-> << >>, fl |-> << >>, qd |-> << >>, an |-> << >>, ns |-> << >>, ar |-> << >>, rj |-> {}, t |-> 0]
Init == /\ p \in Packets
        /\ \E z \in {"plain", "comp"} : \E t \in Tampers(Wire(p, z)) : how = << z, t >> /\ b = Apply(Wire(p, z), t)
        /\ s = IF Len(b) < 12 THEN MRej(S0, "trunc") ELSE [S0 EXCEPT !.id = SubSeq(b, 1, 2), !.fl = FlagsOf(SubSeq(b, 3, 4))]
        /\ todo = IF Len(b) < 12 THEN << 0, 0, 0, 0 >> ELSE [i \in 1..4 |-> U16(Cut(b, 2 + 2 * i, 2))]
Cur == CHOOSE i \in 1..4 : todo[i] > 0 /\ \A j \in 1..(i - 1) : todo[j] = 0
More == s.st \notin {"rej", "any"} /\ \E i \in 1..4 : todo[i] > 0
Next == /\ More
        /\ s' = IF Cur = 1 THEN ReadQ(b, cf, s) ELSE ReadR(b, cf, s, Sections[Cur - 1])
        /\ todo' = [todo EXCEPT ![Cur] = @ - 1]
        /\ UNCHANGED << p, b, how >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == ~More

Same == Done /\ how[2][1] \in {"none", "extend"} => s.st = "ok" /\ Difs(p, s) = {}
CutRejected == Done /\ how[2][1] = "cut" => s.st = "rej"
MoreRejected == Done /\ how[2][1] = "more" => s.st = "rej"
(* a smaller count: never more entries than announced *)
Announced == Done /\ s.st # "rej" => Len(s.qd) = U16(Cut(b, 4, 2)) /\ Len(s.an) = U16(Cut(b, 6, 2)) /\ Len(s.ns) = U16(Cut(b, 8, 2)) /\ Len(s.ar) = U16(Cut(b, 10, 2))
Progress == [][s'.st = "rej" \/ s'.pos >= s.pos + (IF Len(s'.qd) > Len(s.qd) THEN 5 ELSE 11)]_vars
Entries == 5 * Len(s.qd) + 11 * (Len(s.an) + Len(s.ns) + Len(s.ar)) + 12 <= s.pos
InMessage == s.st # "rej" => s.pos <= Len(b)
Whole == ReadMsg(b, cf).st = s.st \/ More
(* the walk that judges serialisations accepts exactly these writers *)
WalkAccepts == how[2][1] = "none" /\ s.pos = 12 => IF how[1] = "plain" THEN PlainDifs(b, p, {}) = {} /\ Walk(b, p, FALSE, {}) = {} ELSE CompDifs(b, p, {}) = {}
WalkRejects == how[2][1] \in {"more", "extend", "cut"} /\ s.pos = 12 => IF how[1] = "plain" THEN PlainDifs(b, p, {}) # {} ELSE CompDifs(b, p, {}) # {}
Shorter == how[1] = "comp" /\ how[2][1] = "none" => Len(b) <= Len(PlainWire(p, {}))
Ends == <>Done
=============================================================================
