------------------------------ MODULE Message ------------------------------
(* Whole messages (RFC 1035): writing, reading, and a walk along a given     *)
(* serialisation that checks it against the packet it is meant to encode.    *)
EXTENDS RData

Sections == << "an", "ns", "ar" >>
FlagWord(fl) == << 128 * fl[1] + 8 * fl[2] + 4 * fl[3] + 2 * fl[4] + fl[5], 128 * fl[6] + fl[7] >>
FlagsOf(w) == << w[1] \div 128, OpGet((w[1] \div 8) % 16), (w[1] \div 4) % 2, (w[1] \div 2) % 2, w[1] % 2,
                 w[2] \div 128, w[2] % 16 >>
ClassWord(c, u) == W16(c + 32768 * u)
Counts(p) == W16(Len(p.qd)) \o W16(Len(p.an)) \o W16(Len(p.ns)) \o W16(Len(p.ar))
Header(p) == p.id \o FlagWord(p.fl) \o Counts(p)

QWire(q) == NameWire(q.n) \o W16(q.t) \o ClassWord(q.c, q.u)
RecWire(r, D) == LET d == RWire(r.d.t, r.d.f, D)
                 IN NameWire(r.n) \o W16(r.t) \o ClassWord(r.c, r.u) \o r.ttl \o W16(Len(d)) \o d
Records(p) == p.an \o p.ns \o p.ar
PlainWire(p, D) ==
  Header(p) \o Cat([i \in 1..Len(p.qd) |-> QWire(p.qd[i])])
            \o LET rs == Records(p) IN Cat([i \in 1..Len(rs) |-> RecWire(rs[i], D)])
SizeExtras(p) == LET rs == Records(p) IN FoldLeft(LAMBDA a, r : a + SizeExtra(r.d), 0, rs)
HasK6(p) == LET rs == Records(p) IN \E i \in 1..Len(rs) : rs[i].d.t = 45 /\ rs[i].d.f[2] = << 0 >>

(* --- reading ---------------------------------------------------------------- *)
(* st of a message: ok/may/any/rej as for record data; why: reason; rj: the    *)
(* recorded deviations under which the whole message is rejected.              *)
MRej(s, w) == [s EXCEPT !.st = "rej", !.why = w]

ReadQ(b, cf, s) ==
  IF s.st \in {"rej", "any"} THEN s
  ELSE LET r == Resolve(b, Len(b), s.pos) IN
    IF r.st = "rej" THEN MRej(s, IF r.why = "trunc" THEN "ntrunc" ELSE r.why)
    ELSE IF r.nxt + 4 > Len(b) THEN MRej(s, "trunc")
    ELSE LET t == U16(Cut(b, r.nxt, 2))
             c == U16(Cut(b, r.nxt + 2, 2))
         IN IF t \notin QTypes(cf) \/ (c % 32768) \notin QClasses THEN MRej(s, "code")
            ELSE [s EXCEPT !.pos = r.nxt + 4, !.ends = Append(s.ends, r.nxt + 4), !.st = Worse(s.st, IF r.odd THEN "may" ELSE "ok"),
                  !.qd = Append(s.qd, [n |-> r.lab, t |-> t, c |-> c % 32768, u |-> IF cf.m THEN c \div 32768 ELSE 0])]

ReadR(b, cf, s, sec) ==
  IF s.st \in {"rej", "any"} THEN s
  ELSE LET r == Resolve(b, Len(b), s.pos) IN
    IF r.st = "rej" THEN MRej(s, IF r.why = "trunc" THEN "ntrunc" ELSE r.why)
    ELSE IF r.nxt + 10 > Len(b) THEN MRej(s, "trunc")
    ELSE LET t == U16(Cut(b, r.nxt, 2))
             c == U16(Cut(b, r.nxt + 2, 2))
             n == U16(Cut(b, r.nxt + 8, 2))
             at == r.nxt + 10
         IN IF t \notin RTypes(cf) THEN MRej(s, "code")
            ELSE IF at + n > Len(b) THEN MRej(s, "trunc")
            ELSE LET d == RRead(t, b, at, at + n, cf)
                     oks == {a \in d.alts : a.st = "ok"}
                     rec == [n |-> r.lab, t |-> t, c |-> c % 32768, u |-> IF cf.m THEN c \div 32768 ELSE 0,
                             ttl |-> Cut(b, r.nxt + 4, 4), d |-> [t |-> t, f |-> d.f], alts |-> oks, st |-> d.st]
                 IN IF d.st = "rej" /\ oks = {} THEN [MRej(s, d.why) EXCEPT !.t = t]
                    ELSE [s EXCEPT !.pos = at + n, !.ends = Append(s.ends, at + n), ![sec] = Append(s[sec], rec),
                          !.st = IF d.st = "rej" THEN Worse(s.st, "may") ELSE Worse(Worse(s.st, d.st), IF r.odd THEN "may" ELSE "ok"),
                          !.rj = s.rj \cup {a.tag : a \in {a \in d.alts : a.st = "rej"}}]

ReadMsg(b, cf) ==
  LET s0 == [pos |-> 12, st |-> "ok", why |-> "", id |-> << >>, fl |-> << >>, qd |-> << >>, an |-> << >>,
             ns |-> << >>, ar |-> << >>, rj |-> {}, t |-> 0, ends |-> << 12 >>]
  IN IF Len(b) < 12 THEN MRej(s0, "trunc")
     ELSE IF b[4] % 16 \notin Rcodes THEN MRej(s0, "rcode")
     ELSE LET s1 == [s0 EXCEPT !.id = SubSeq(b, 1, 2), !.fl = FlagsOf(SubSeq(b, 3, 4))]
              cnt(i) == U16(Cut(b, 2 + 2 * i, 2))
              \* no entry takes less than a byte: so many steps reach the end of the message
              ks(k) == [i \in 1..(IF k > Len(b) THEN Len(b) ELSE k) |-> i]
              qs(s, k) == FoldLeft(LAMBDA x, i : ReadQ(b, cf, x), s, ks(k))
              rs(s, k, sec) == FoldLeft(LAMBDA x, i : ReadR(b, cf, x, sec), s, ks(k))
          IN rs(rs(rs(qs(s1, cnt(1)), cnt(2), "an"), cnt(3), "ns"), cnt(4), "ar")

(* --- comparing packets ------------------------------------------------------ *)
(* Differences between packet p (expected) and q (reported), as a set of       *)
(* [w: component, t: record type or 0].                                        *)
Dif(w, t) == [w |-> w, t |-> t]
QDifs(a, b) ==
  (IF a.n # b.n THEN {Dif("qname", 0)} ELSE {}) \cup (IF a.t # b.t THEN {Dif("qtype", a.t)} ELSE {})
  \cup (IF a.c # b.c THEN {Dif("qclass", 0)} ELSE {}) \cup (IF a.u # b.u THEN {Dif("top", 0)} ELSE {})
RDifs(a, b) ==
  (IF a.n # b.n THEN {Dif("rname", 0)} ELSE {})
  \cup (IF a.c # b.c THEN {Dif("rclass", 0)} ELSE {}) \cup (IF a.u # b.u THEN {Dif("top", 0)} ELSE {})
  \cup (IF a.ttl # b.ttl THEN {Dif("ttl", 0)} ELSE {})
  \cup (IF a.t # b.t \/ a.d.t # b.d.t THEN {Dif("rtype", a.t)}
        ELSE IF SameF(a.t, a.d.f, b.d.f) THEN {} ELSE {Dif("rdata", a.t)})
SDifs(x, y, Op2(_, _)) ==
  IF Len(x) # Len(y) THEN {Dif("count", 0)} ELSE UNION {Op2(x[i], y[i]) : i \in 1..Len(x)}
HDifs(p, q) == (IF p.id # q.id THEN {Dif("id", 0)} ELSE {}) \cup (IF p.fl # q.fl THEN {Dif("flags", 0)} ELSE {})
Difs(p, q) == HDifs(p, q) \cup SDifs(p.qd, q.qd, QDifs)
              \cup SDifs(p.an, q.an, RDifs) \cup SDifs(p.ns, q.ns, RDifs) \cup SDifs(p.ar, q.ar, RDifs)

(* --- walking along a serialisation ------------------------------------------ *)
Has(b, p, v) == p + Len(v) <= Len(b) /\ Cut(b, p, Len(v)) = v

(* A name expected at offset p. Result: next offset (-1: not this name) and     *)
(* whether anything was spelled.                                                *)
WName(b, p, n, z) ==
  IF z THEN LET r == Resolve(b, Len(b), p) IN
         IF r.st = "done" /\ r.lab = Solid(n) THEN [nxt |-> r.nxt, bare |-> b[p + 1] >= 192] ELSE [nxt |-> -1, bare |-> FALSE]
  ELSE LET w == NameWire(n) IN IF Has(b, p, w) THEN [nxt |-> p + Len(w), bare |-> FALSE] ELSE [nxt |-> -1, bare |-> FALSE]

(* Suffixes of n that are spelled at offsets p.. and end before offset e *)
RECURSIVE Spelled(_, _, _, _)
Spelled(n, i, p, e) ==
  IF i > Len(n) \/ p >= e \/ p >= 16384 THEN {}
  ELSE {SubSeq(n, i, Len(n))} \cup Spelled(n, i + 1, p + 1 + Len(n[i]), e)
(* offset behind the labels spelled at p (where the pointer or zero stands) *)
RECURSIVE RunEnd(_, _)
RunEnd(b, p) == IF b[p + 1] \in 1..191 THEN RunEnd(b, p + 1 + b[p + 1]) ELSE p

WBad(s, w, t) == [s EXCEPT !.bad = s.bad \cup {Dif(w, t)}, !.stop = TRUE]
(* a question or owner name *)
WOwner(b, s, n, z, w) ==
  LET r == WName(b, s.pos, n, z)
      m == Solid(n)
  IN IF r.nxt = -1 THEN WBad(s, w, 0)
     ELSE IF ~z THEN [s EXCEPT !.pos = r.nxt]
     ELSE [s EXCEPT !.pos = r.nxt,
             !.seen = IF r.bare THEN s.seen ELSE s.seen \cup Spelled(m, 1, s.pos, RunEnd(b, s.pos)),
             !.bad = IF m # << >> /\ m \in s.seen /\ ~r.bare THEN s.bad \cup {Dif("respelled", 0)} ELSE s.bad]
WClass(b, s, c, u) ==
  IF Has(b, s.pos, ClassWord(c, u)) THEN [s EXCEPT !.pos = s.pos + 2]
  ELSE IF Has(b, s.pos, ClassWord(c, 1 - u)) THEN [s EXCEPT !.pos = s.pos + 2, !.bad = s.bad \cup {Dif("top", 0)}]
  ELSE WBad(s, "class", 0)
WBytes(b, s, v, w, t) == IF Has(b, s.pos, v) THEN [s EXCEPT !.pos = s.pos + Len(v)] ELSE WBad(s, w, t)

WQ(b, z, s, q) ==
  LET a == WOwner(b, s, q.n, z, "qname") IN
  IF a.stop THEN a
  ELSE LET c == WBytes(b, a, W16(q.t), "qtype", q.t) IN IF c.stop THEN c ELSE WClass(b, c, q.c, q.u)

WPart(b, z, e, t, s, x) ==
  IF s.stop THEN s
  ELSE CASE x.k = "b" -> WBytes(b, s, x.v, "rdata", t)
         [] x.k = "n" -> LET r == WName(b, s.pos, x.v, z) IN
                         IF r.nxt = -1 THEN WBad(s, "rdata", t)
                         ELSE IF ~z THEN [s EXCEPT !.pos = r.nxt]
                         ELSE [s EXCEPT !.pos = r.nxt,
                                 !.seen = IF r.bare THEN s.seen ELSE s.seen \cup Spelled(Solid(x.v), 1, s.pos, RunEnd(b, s.pos))]
         [] x.k = "o" -> IF Len(OptsWire(x.v)) # e - s.pos THEN WBad(s, "rdata", t)
                         ELSE LET r == OptsRead(b, e, [pos |-> s.pos, st |-> "ok", os |-> << >>]) IN
                           IF r.st = "ok" /\ SortOpts(r.os) = SortOpts(x.v) THEN [s EXCEPT !.pos = e] ELSE WBad(s, "rdata", t)
WR(b, z, D, s, r) ==
  LET a == WOwner(b, s, r.n, z, "rname") IN
  IF a.stop THEN a
  ELSE LET c == WBytes(b, a, W16(r.t), "rtype", r.t) IN
  IF c.stop THEN c
  ELSE LET d == WClass(b, c, r.c, r.u) IN
  IF d.stop THEN d
  ELSE LET g == WBytes(b, d, r.ttl, "ttl", 0) IN
  IF g.stop THEN g
  ELSE IF g.pos + 2 > Len(b) THEN WBad(g, "short", 0)
  ELSE LET n == U16(Cut(b, g.pos, 2))
           e == g.pos + 2 + n
           ps == Parts(r.d.t, r.d.f, D)
           h == [g EXCEPT !.pos = g.pos + 2]
       IN IF e > Len(b) /\ r.d.t = 41 THEN WBad(g, "rdlen", r.t)
          ELSE LET i == FoldLeft(LAMBDA x, y : WPart(b, z, e, r.t, x, y), h, ps) IN
            IF i.stop THEN i
            ELSE IF i.pos # e THEN [i EXCEPT !.bad = i.bad \cup {Dif("rdlen", r.t)}] ELSE i

Walk(b, p, z, D) ==
  LET s0 == [pos |-> 12, bad |-> {}, stop |-> FALSE, seen |-> {}]
  IN IF Len(b) < 12 THEN {Dif("short", 0)}
     ELSE LET s1 == [s0 EXCEPT !.bad =
                      (IF SubSeq(b, 1, 2) # p.id THEN {Dif("id", 0)} ELSE {})
                      \cup (IF SubSeq(b, 3, 4) # FlagWord(p.fl) THEN {Dif("flags", 0)} ELSE {})
                      \cup (IF SubSeq(b, 5, 12) # Counts(p) THEN {Dif("count", 0)} ELSE {})]
              s2 == FoldLeft(LAMBDA s, q : IF s.stop THEN s ELSE WQ(b, z, s, q), s1, p.qd)
              s3 == FoldLeft(LAMBDA s, r : IF s.stop THEN s ELSE WR(b, z, D, s, r), s2, Records(p))
          IN IF ~s3.stop /\ s3.pos # Len(b) THEN s3.bad \cup {Dif("tail", 0)} ELSE s3.bad

(* Differences between a plain serialisation and the standard one. *)
PlainDifs(b, p, D) == IF b = PlainWire(p, D) THEN {} ELSE Walk(b, p, FALSE, D)
CompDifs(b, p, D) == Walk(b, p, TRUE, D)

(* --- validity of packets (the precondition of the round-trip properties) ----- *)
ValidRec(r) == ValidName(r.n) /\ r.t = r.d.t
ValidPacket(p) == (\A i \in 1..Len(p.qd) : ValidName(p.qd[i].n)) /\ LET rs == Records(p) IN \A i \in 1..Len(rs) : ValidRec(rs[i])
=============================================================================
