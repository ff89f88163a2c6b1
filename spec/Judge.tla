------------------------------- MODULE Judge -------------------------------
(* Decides for one recorded event whether it is a behaviour of the            *)
(* specification. Result: set of [p: property, k: tag of a recorded finding    *)
(* or "", w: what].                                                            *)
EXTENDS BuilderOps, CursorOps, RrsetOps, EntryOps, ViewOps

Vs(ps, w) == {[p |-> x, k |-> "", w |-> w] : x \in ps}
Ks(ps, tag, w) == {[p |-> x, k |-> tag, w |-> w] : x \in ps}
If(c, s) == IF c THEN s ELSE {}
IsErr(o) == "e" \in DOMAIN o
Bad(ev) == ev.x = 1          \* panic, hang or crash

TypeProps(t) == IF t \in {47, 62} THEN {"C14"} ELSE IF t \in {64, 41} THEN {"C21"} ELSE {}
Txt(d) == d.w \o (IF d.t # 0 THEN " type " \o ToString(d.t) ELSE "")

(* differences in written bytes *)
PlainProps(d) ==
  CASE d.w \in {"id", "flags"} -> {"C05"}
    [] d.w = "count" -> {"C04"}
    [] d.w = "top" -> {"C08", "C15"}
    [] d.w = "rdlen" -> {"C07", "C08"}
    [] d.w \in {"qtype", "rtype"} -> {"C08", "C13"}
    [] d.w = "class" -> {"C08", "C15"}
    [] d.w = "rdata" -> {"C08"} \cup TypeProps(d.t)
    [] OTHER -> {"C08"}
CompProps(d) ==
  CASE d.w \in {"id", "flags"} -> {"C03", "C05"}
    [] d.w = "count" -> {"C03", "C04"}
    [] d.w = "top" -> {"C03", "C15"}
    [] d.w = "rdlen" -> {"C03", "C07"}
    [] d.w = "rdata" -> {"C03", "C08"} \cup TypeProps(d.t)
    [] d.w = "class" -> {"C03", "C08", "C15"}
    [] d.w \in {"qtype", "rtype"} -> {"C03", "C08", "C13"}
    [] d.w = "ttl" -> {"C03", "C08"}
    [] OTHER -> {"C03"}
(* differences in what was read *)
ReadProps(d) ==
  CASE d.w \in {"id", "flags"} -> {"C05"}
    [] d.w = "count" -> {"C11"}
    [] d.w \in {"qname", "rname"} -> {"C06"}
    [] d.w \in {"qtype", "rtype"} -> {"C09", "C13"}
    [] d.w = "top" -> {"C15"}
    [] d.w \in {"qclass", "rclass"} -> {"C09", "C13", "C15"}
    [] d.w = "rdata" -> {"C09"} \cup TypeProps(d.t)
    [] OTHER -> {"C09"}
MapDifs(ds, F(_), extra, pre) == UNION {Vs(F(d) \cup extra, pre \o Txt(d)) : d \in ds}

(* a rejected message or record that had to be accepted *)
RejProps(o) ==
  {"C09"} \cup (IF o.e \in {"InvalidType", "InvalidClass", "InvalidResponseCode"} THEN {"C13"} ELSE {})
          \cup (IF o.e = "UnresolveableCompressionPointer" THEN {"C06"} ELSE {})
(* an accepted message or record that had to be rejected *)
WhyProps(w) ==
  CASE w = "trunc" -> {"C11"}
    [] w = "ntrunc" -> {"C11", "C06"}
    [] w = "short" -> {"C09", "C10"}
    [] w = "nshort" -> {"C06", "C10"}
    [] w \in {"ptr", "long"} -> {"C06"}
    [] w = "code" -> {"C09", "C13"}
    [] w = "bitmap" -> {"C09", "C14"}
    [] w = "param" -> {"C09", "C21"}
    [] w = "rcode" -> {"C05", "C13"}
    [] OTHER -> {"C09"}
GroupProps(g) == IF g \in {"C10", "C11", "C06", "C14", "C21", "C15", "C13"} THEN {g} ELSE {}

(* announced size n for len bytes, x: excess under K1 *)
SizeJudge(n, len, x, w) ==
  IF n = len THEN {} ELSE IF x > 0 /\ n = len + x THEN Ks({"C07"}, "K1", w) ELSE Vs({"C07"}, w)

Panic(ev, more) == IF Bad(ev) THEN Vs({"C01"} \cup more, "no normal return" \o (IF "ph" \in DOMAIN ev.o THEN " in " \o ev.o.ph ELSE "")) ELSE {}

(* --- enc: a packet is built, serialised in both forms and read back --------- *)
EncPanic(ev) ==
  LET ph == IF "ph" \in DOMAIN ev.o THEN ev.o.ph ELSE "" IN
  CASE ph = "build" -> {"C20"}
    [] ph = "size" -> {"C07"}
    [] ph = "plain" -> {"C08", "C02"}
    [] ph = "compressed" -> {"C03"}
    [] ph \in {"reparse", "parsez", "prefix"} -> {"C01", IF ph = "reparse" THEN "C02" ELSE IF ph = "parsez" THEN "C03" ELSE "C11"}
    [] ph = "render" -> {"C19"}
    [] OTHER -> {"C02"}

JEnc(ev) ==
  LET p == ev.c.p
      o == ev.o
      d0 == PlainDifs(o.b, p, {})
      k6 == HasK6(p)
      d6 == k6 /\ d0 # {} /\ PlainDifs(o.b, p, {"K6"}) = {}
      db == IF d6 THEN {} ELSE d0
      z0 == CompDifs(o.z, p, {})
      z6 == k6 /\ z0 # {} /\ CompDifs(o.z, p, {"K6"}) = {}
      dz == IF z6 THEN {} ELSE z0
      rs == Records(p)
      gp == GroupProps(ev.g)
      back(r, prop, wire) ==
        IF IsErr(r) THEN Vs({prop, "C04"} \cup (IF wire = {} THEN RejProps(r) \cup gp ELSE {}), "serialised packet is rejected: " \o r.e)
        ELSE LET ds == Difs(p, r.p) IN
             IF ds = {} THEN {}
             ELSE MapDifs(ds, LAMBDA d : IF wire = {} THEN ReadProps(d) \cup gp ELSE {}, {prop}, "read back: ")
  IN IF Bad(ev) THEN Vs(EncPanic(ev), "no normal return" \o (IF "ph" \in DOMAIN o THEN " in " \o o.ph ELSE ""))
     ELSE MapDifs(db, PlainProps, {}, "written: ")
       \cup If(d6, Ks({"C08"}, "K6", "gateway of IPSECKEY written as one octet"))
       \cup MapDifs(dz, CompProps, {}, "compressed: ")
       \cup If(z6, Ks({"C08"}, "K6", "gateway of IPSECKEY written as one octet"))
       \cup If(Len(o.z) > Len(o.b), Vs({"C03"}, "compressed form is longer"))
       \cup back(o.rb, "C02", db) \cup back(o.rz, "C03", dz)
       \cup SizeJudge(o.bs, Len(o.b), SizeExtras(p), "size of packet")
       \cup UNION {SizeJudge(o.sz[i][1], o.sz[i][2], 0, "size of header, question or name") : i \in 1..Len(o.sz)}
       \cup UNION {SizeJudge(o.rs[2 * i - 1][1], o.rs[2 * i - 1][2], SizeExtra(rs[i].d), "size of record")
                   \cup SizeJudge(o.rs[2 * i][1], o.rs[2 * i][2], SizeExtra(rs[i].d), "size of record data") : i \in 1..Len(rs)}
       \cup If(db = {} /\ o.pa # << >>, Vs({"C11"}, "prefix of plain form accepted"))
       \cup If(dz = {} /\ o.za # << >>, Vs({"C11"}, "prefix of compressed form accepted"))
       \cup If(~o.tr, Vs({"C11"}, "trailing bytes change the result"))

(* --- dec: arbitrary bytes ----------------------------------------------------- *)
AltMatch(r, q) == {a.tag : a \in {a \in r.alts : r.t = q.d.t /\ SameF(r.t, a.f, q.d.f)}}
RecJudge(r, q, gp) ==
  LET ds == RDifs(r, q)
      tags == IF Dif("rdata", r.t) \in ds \/ r.st = "rej" THEN AltMatch(r, q) ELSE {}
      left == IF tags # {} THEN {d \in ds : d.w # "rdata"} ELSE ds
  IN MapDifs(left, ReadProps, gp, "read: ")
     \cup If(r.st = "rej" /\ tags = {}, Vs({"C09"} \cup gp, "invalid data accepted, type " \o ToString(r.t)))
     \cup UNION {Ks({"C09"} \cup TypeProps(r.t), x, "data of type " \o ToString(r.t) \o " altered") : x \in tags}
SecJudge(x, y, gp) ==
  IF Len(x) # Len(y) THEN Vs({"C11"} \cup gp, "number of entries differs from the header")
  ELSE UNION {RecJudge(x[i], y[i], gp) : i \in 1..Len(x)}

HasAlts(m) == LET rs == Records(m) IN \E i \in 1..Len(rs) : rs[i].alts # {}
MemBound(n) == 40960 + n
JDec(ev) ==
  LET o == ev.o
      b == ev.c.b
      gp == GroupProps(ev.g)
      m == ReadMsg(b, ev.cf)
  IN IF Bad(ev) THEN Panic(ev, {})
     ELSE If(o.kb > MemBound(Len(b)), Vs({"C01"}, "memory out of proportion"))
     \cup If(IsErr(o) /\ (IF IsErr(o) THEN o.ch > 3 ELSE FALSE), Vs({"C01"}, "causes of the error do not end"))
     \cup IF m.st = "any" THEN {}
     ELSE IF IsErr(o) THEN
       IF m.st # "ok" THEN {}
       ELSE IF m.rj # {} THEN UNION {Ks({"C09"} \cup (IF x = "K7" THEN {"C21"} ELSE {}), x, "valid record data rejected") : x \in m.rj}
       ELSE Vs(RejProps(o) \cup gp, "valid message rejected: " \o o.e)
     ELSE IF m.st = "rej" THEN Vs(WhyProps(m.why) \cup gp, "invalid message accepted: " \o m.why \o " type " \o ToString(m.t))
     ELSE
       LET qd == IF Len(m.qd) # Len(o.p.qd) THEN Vs({"C11"} \cup gp, "number of questions differs from the header")
                 ELSE UNION {MapDifs(QDifs(m.qd[i], o.p.qd[i]), ReadProps, gp, "read: ") : i \in 1..Len(m.qd)}
           ds == MapDifs(HDifs(m, o.p), ReadProps, {}, "read: ") \cup qd
                 \cup SecJudge(m.an, o.p.an, gp) \cup SecJudge(m.ns, o.p.ns, gp) \cup SecJudge(m.ar, o.p.ar, gp)
           \* the header written again: reserved bits and opcodes may be kept or dropped
           fl(x) == {d \in x : d.w # "flags"}
           rawop == (b[3] \div 8) % 16
           plainhdr == rawop <= 3 /\ (b[4] \div 16) % 8 = 0
           again == IF plainhdr THEN PlainDifs(o.b, o.p, {}) ELSE fl(PlainDifs(o.b, o.p, {}))
           againz == IF plainhdr THEN CompDifs(o.z, o.p, {}) ELSE fl(CompDifs(o.z, o.p, {}))
       IN ds
          \cup If(o.end # m.pos, Vs({"C10", "C11", "C12"}, "read position behind the message"))
          \cup If(o.inc.ends # m.ends, Vs({"C10", "C12"}, "read position behind an entry"))
          \cup If(~o.inc.eq, Vs({"C09"} \cup gp, "entries read one by one differ"))
          \cup
          IF ds # {} \/ m.st # "ok" \/ HasAlts(m) THEN {}
          ELSE MapDifs(again, PlainProps, {"C09"}, "written again: ")
            \cup MapDifs(againz, CompProps, {}, "written again compressed: ")
            \cup (IF IsErr(o.rb) THEN Vs({"C09", "C02"}, "re-serialised packet is rejected")
                  ELSE MapDifs(Difs(o.p, o.rb.p), LAMBDA d : {"C09", "C02"}, {}, "read again: "))
            \cup (IF IsErr(o.rz) THEN Vs({"C03"}, "re-serialised compressed packet is rejected")
                  ELSE MapDifs(Difs(o.p, o.rz.p), LAMBDA d : {"C03"}, {}, "read again: "))
            \cup SizeJudge(o.bs, Len(o.b), SizeExtras(o.p), "size of parsed packet")
            \cup If(~o.eqc, Vs({"C20"}, "clone of a packet differs from it"))

(* --- rd: one record data value ------------------------------------------------- *)
JRd(ev) ==
  LET o == ev.o
      c == ev.c
      t == c.t
      b == c.pre \o c.d \o c.post
      at == Len(c.pre)
      m == RRead(t, b, at, at + Len(c.d), ev.cf)
      tp == TypeProps(t) \cup GroupProps(ev.g)
      oks == {a \in m.alts : a.st = "ok"}
      rjs == {a \in m.alts : a.st = "rej"}
      again(f, D) == LET w == RWire(t, f, D) IN
                     o.w = w \/ (t = 41 /\ Len(o.w) = Len(w) /\ LET r == RRead(t, o.w, 0, Len(o.w), ev.cf) IN r.st = "ok" /\ SameF(t, r.f, f))
  IN IF Bad(ev) THEN Panic(ev, {"C09"} \cup tp)
     ELSE If(o.kb > MemBound(Len(b)), Vs({"C01"}, "memory out of proportion"))
     \cup If(IsErr(o) /\ (IF IsErr(o) THEN o.ch > 3 ELSE FALSE), Vs({"C01"}, "causes of the error do not end"))
     \cup IF m.st = "any" THEN {}
     ELSE IF IsErr(o) THEN
       IF m.st # "ok" THEN {}
       ELSE IF rjs # {} THEN UNION {Ks({"C09"} \cup TypeProps(t), a.tag, "valid data of type " \o ToString(t) \o " rejected") : a \in rjs}
       ELSE Vs(RejProps(o) \cup tp, "valid data of type " \o ToString(t) \o " rejected: " \o o.e)
     ELSE IF o.v.t # t THEN Vs({"C09", "C13"}, "data of type " \o ToString(t) \o " read as another type")
     ELSE IF m.st # "rej" /\ SameF(t, m.f, o.v.f) THEN
       IF m.st # "ok" \/ m.alts # {} THEN {}
       ELSE If(~again(o.v.f, {}), Vs({"C08", "C09"} \cup tp, "written again differently, type " \o ToString(t)))
            \cup (IF IsErr(o.r2) \/ ~SameF(t, o.r2.v.f, o.v.f) THEN Vs({"C09", "C02"} \cup tp, "read again differently, type " \o ToString(t)) ELSE {})
            \cup SizeJudge(o.bs, Len(o.w), SizeExtra(o.v), "size of record data, type " \o ToString(t))
     ELSE LET tags == {a.tag : a \in {a \in oks : SameF(t, a.f, o.v.f)}} IN
       IF tags # {} THEN UNION {Ks({"C09"} \cup TypeProps(t), x, "data of type " \o ToString(t) \o " altered") : x \in tags}
       ELSE IF m.st = "rej" THEN Vs(WhyProps(m.why) \cup {"C09"} \cup tp, "invalid data accepted, type " \o ToString(t) \o ": " \o m.why)
       ELSE Vs({"C09"} \cup tp, "data of type " \o ToString(t) \o " misread")

(* --- name: names of a buffer --------------------------------------------------- *)
JName(ev) ==
  LET b == ev.c.b IN
  IF Bad(ev) THEN Panic(ev, {"C06"} \cup (IF "ph" \in DOMAIN ev.o /\ ev.o.ph = "render" THEN {"C19"} ELSE {}))
  ELSE UNION {LET o == ev.o[i]
                  r == Resolve(b, Len(b), ev.c.s[i])
                  at == " at " \o ToString(ev.c.s[i])
              IN If(o.p + o.m # Len(b) \/ o.p > Len(b), Vs({"C12"}, "cursor out of the buffer after reading a name"))
                 \cup IF IsErr(o) THEN
                        IF r.st = "rej" \/ r.odd THEN {} ELSE Vs({"C06"}, "valid name rejected" \o at)
                      ELSE IF r.st = "rej" THEN Vs({"C06"}, "invalid name accepted (" \o r.why \o ")" \o at)
                      ELSE If(o.l # r.lab, Vs({"C06"}, "labels differ" \o at))
                           \cup If(o.p # r.nxt, Vs({"C06"}, "read position is not behind the name" \o at))
                           \cup If(o.l = r.lab /\ (\A j \in 1..Len(r.lab) : IsUtf8(r.lab[j])) /\ o.txt # NameText(r.lab),
                                   Vs({"C19"}, "text of a name read from the wire"))
              : i \in 1..Len(ev.c.s)}

(* --- cur: cursor histories ------------------------------------------------------ *)
CObs(b, st, v) == [v |-> v, p |-> Top(st)[1], m |-> Top(st)[2] - Top(st)[1]]
JCur(ev) ==
  LET b == ev.c.b
      ops == ev.c.ops
      o == ev.o
      chk(s, st, v, w) ==      \* next output entry is a success with v in state st
        IF s.j > Len(o) THEN [s EXCEPT !.bad = {"output ends early"}]
        ELSE LET x == o[s.j] IN
          IF IsErr(x) THEN [s EXCEPT !.bad = {"operation fails: " \o w}]
          ELSE IF x.b # v \/ x.p # Top(st)[1] \/ x.m # Top(st)[2] - Top(st)[1] THEN [s EXCEPT !.bad = {"wrong result: " \o w}]
          ELSE [s EXCEPT !.j = s.j + 1, !.st = st]
      step(s, op) ==
        IF s.bad # {} THEN s
        ELSE LET r == CApply(b, s.st, op, ev.cf) IN
          IF op[1] = "pop" THEN IF Len(s.st) = 1 THEN s ELSE chk(s, r.st, << >>, "parent after sub-buffer")
          ELSE IF r.ok /\ ~(r.loose /\ s.j <= Len(o) /\ IsErr(o[s.j])) THEN chk(s, r.st, r.v, op[1])
          ELSE IF s.j > Len(o) THEN [s EXCEPT !.bad = {"output ends early"}]
          ELSE LET x == o[s.j]
                   t == Top(s.st)
               IN IF ~IsErr(x) THEN [s EXCEPT !.bad = {"operation beyond the end succeeds: " \o op[1]}]
                  ELSE IF x.p + x.m # t[2] \/ x.p > t[2] THEN [s EXCEPT !.bad = {"cursor out of bounds after a failed " \o op[1]}]
                  ELSE IF ~r.loose /\ x.p # t[1] THEN [s EXCEPT !.bad = {"failed " \o op[1] \o " moves the cursor"}]
                  ELSE [s EXCEPT !.j = s.j + 1, !.st = SetPos(s.st, x.p)]
      RECURSIVE unwind(_)
      unwind(s) == IF s.bad # {} \/ Len(s.st) = 1 THEN s
                   ELSE unwind(chk(s, SubSeq(s.st, 1, Len(s.st) - 1), << >>, "parent after sub-buffer"))
      s0 == chk([j |-> 1, st |-> CInit(b), bad |-> {}], CInit(b), b, "new cursor")
      end == unwind(FoldLeft(step, s0, ops))
  IN IF Bad(ev) THEN Vs({"C12", "C01"}, "no normal return from a cursor operation")
     ELSE UNION {Vs({"C12"}, w) : w \in end.bad}

(* --- header histories ------------------------------------------------------------ *)
HInitOf(c) ==
  LET i == c.init IN
  CASE i[1] \in {"q", "w"} -> HQuery(W16(i[2]), i[3])
    [] i[1] = "r" -> HReply(W16(i[2]), IF c.on = "h" THEN i[3] ELSE 0)
    [] i[1] = "d" -> HDefault
HObs(h, o) ==
  If(o.id # h.id \/ o.fl # h.fl, Vs({"C05"}, "getters"))
  \cup If(o.hf # h.fl, Vs({"C05"}, "getters of the header"))
  \cup If(Len(o.w) # 12 \/ SubSeq(o.w, 1, 4) # h.id \o FlagWord(h.fl), Vs({"C05"}, "header bytes"))
  \cup If(Len(o.z) # 12 \/ SubSeq(o.z, 1, 4) # h.id \o FlagWord(h.fl), Vs({"C05", "C03"}, "header bytes, compressed"))
  \cup If(Len(o.w) = 12 /\ SubSeq(o.w, 5, 12) # Zeros(8), Vs({"C04"}, "counts of an empty packet"))
  \cup If(IsErr(o.rt), Vs({"C05"}, "header does not parse back"))
  \cup If(~IsErr(o.rt) /\ (o.rt.id # h.id \/ o.rt.fl # h.fl), Vs({"C05"}, "parsed header differs"))
JHdr(ev) ==
  IF Bad(ev) THEN Vs({"C05"}, "header operation does not return")
  ELSE LET n == Len(ev.c.ops)
           hs == FoldLeft(LAMBDA s, o : Append(s, HSet(Last1(s), o[1], o[2])), << HInitOf(ev.c) >>, ev.c.ops)
       IN IF Len(ev.o) # n + 1 THEN Vs({"C05"}, "history incomplete")
          ELSE UNION {HObs(hs[i], ev.o[i]) : i \in 1..(n + 1)}
JHdrT(ev) ==
  IF Bad(ev) THEN Vs({"C05"}, "header operation does not return")
  ELSE UNION {LET h == HSet([id |-> << 171, 205 >>, fl |-> FlagsOf(ev.c.w)], ev.c.ops[i][1], ev.c.ops[i][2])
                  o == ev.o[i]
              IN If(o.id # h.id \/ o.fl # h.fl \/ o.w # FlagWord(h.fl), Vs({"C05"}, "set " \o ev.c.ops[i][1]))
              : i \in 1..Len(ev.c.ops)}
JHdrW(ev) ==
  IF Bad(ev) THEN Vs({"C01", "C05"}, "header word does not parse normally")
  ELSE UNION {LET w == << ev.c.hi, i - 1 >>
                  o == ev.o[i]
                  ok == w[2] % 16 \in Rcodes
              IN IF IsErr(o) THEN If(ok, Vs({"C05"}, "valid header rejected"))
                                  \cup If(~ok /\ (o.e # "InvalidResponseCode" \/ o.n # w[2] % 16), Vs({"C13"}, "error for an unsupported response code"))
                 ELSE IF ~ok THEN Vs({"C05", "C13"}, "unsupported response code accepted")
                 ELSE If(o.id # ev.c.id \/ o.fl # FlagsOf(w), Vs({"C05"}, "parsed header fields"))
                      \cup If(Len(o.w) # 12 \/ SubSeq(o.w, 1, 2) # ev.c.id \/ FlagsOf(SubSeq(o.w, 3, 4)) # FlagsOf(w), Vs({"C05"}, "header written again"))
              : i \in 1..256}

(* --- hist: packet histories ------------------------------------------------------- *)
BObs(p, ret, o) ==
  LET want == Lens(p)
      back(r, w) == LET c == IF w = "plain" THEN "C02" ELSE "C03" IN
                    IF IsErr(r) THEN Vs({"C04", c}, w \o " form does not parse back")
                    ELSE If(r.s # p.s, Vs({"C04", c}, w \o " form has other entries"))
                         \cup If(r.id # p.id \/ r.fl # p.fl, Vs({"C05"}, w \o " form has another header"))
  IN If(o.s # p.s, Vs({"C20"}, "section contents"))
     \cup If(o.ret # ret, Vs({"C20"}, "returned entries"))
     \cup If(o.id # p.id \/ o.fl # p.fl, Vs({"C05", "C20"}, "header fields"))
     \cup If(o.s = p.s /\ o.pc # want, Vs({"C04"}, "counts of the plain form"))
     \cup If(o.s = p.s /\ o.zc # want, Vs({"C04"}, "counts of the compressed form"))
     \cup If(o.s = p.s, back(o.rp, "plain") \cup back(o.rz, "compressed"))
     \cup If(o.bs[1] # o.bs[2], Vs({"C07"}, "size of packet"))
JHist(ev) ==
  IF Bad(ev) THEN Vs({"C04", "C20"}, "packet operation does not return")
  ELSE LET n == Len(ev.c.ops)
           ps == FoldLeft(LAMBDA s, o : Append(s, BApply(Last1(s).p, o)), << R(BInit(ev.c.init), << >>) >>, ev.c.ops)
       IN IF Len(ev.o) # n + 1 THEN Vs({"C20"}, "history incomplete")
          ELSE UNION {BObs(ps[i].p, ps[i].ret, ev.o[i]) : i \in 1..(n + 1)}

(* --- edit: histories of edits of a question or record -------------------------------- *)
EObs(e, o) ==
  LET p == EPacket(e)
      bad(x) == Vs({"C22"}, x)
      sz(n, len, x, w) == IF n = len \/ (x > 0 /\ n = len + x) THEN {} ELSE bad(w)
      x == IF IsRec(e) THEN SizeExtra(e.d) ELSE 0
      same == Entry(e.k, o.v) = e
              \/ (IsRec(e) /\ o.v.d.t = e.d.t /\ SameF(e.d.t, e.d.f, o.v.d.f) /\ [Entry("r", o.v) EXCEPT !.d = e.d] = e)
  IN If(~same, bad("parts of the entry"))
     \cup If(~o.eq, bad("not equal to an entry made of its parts"))
     \cup If(o.w # EWire(e) /\ ~(IsRec(e) /\ e.d.t = 41 /\ Len(o.w) = Len(EWire(e))), bad("serialisation of the entry"))
     \cup UNION {bad("written in a packet: " \o Txt(d)) : d \in PlainDifs(o.b, p, {})}
     \cup UNION {bad("written compressed: " \o Txt(d)) : d \in CompDifs(o.z, p, {})}
     \cup sz(o.bs, Len(o.w), x, "size of the entry") \cup sz(o.pbs, Len(o.b), 2 * x, "size of the packet with the entry")
     \cup If(IsRec(e), If(Len(o.raw) # Len(RWire(e.d.t, e.d.f, {})) \/ (e.d.t # 41 /\ o.raw # RWire(e.d.t, e.d.f, {})), bad("raw data of the record"))
                       \cup If(o.td.t # e.d.t \/ ~SameF(e.d.t, e.d.f, o.td.f), bad("data taken from the record")))
JEdit(ev) ==
  IF Bad(ev) THEN Vs({"C22"}, "edit does not return")
  ELSE LET n == Len(ev.c.ops)
           es == FoldLeft(LAMBDA s, o : Append(s, EApply(Last1(s), o)), << Entry(ev.c.kind, ev.c.init) >>, ev.c.ops)
       IN IF Len(ev.o.s) # n + 1 THEN Vs({"C22"}, "history incomplete")
          ELSE UNION {EObs(es[i], ev.o.s[i]) : i \in 1..(n + 1)}
               \cup If(~ev.o.apart, Vs({"C22"}, "edit of one entry changes another"))

(* --- eq: equality ------------------------------------------------------------------- *)
(* data whose read form may differ from the built one (section 4 of DESIGN.md) *)
LooseTypes == {42, 45, 55, 64}
LooseE(k, v) == k = "r" /\ (v.t # v.d.t \/ v.t \in LooseTypes)
LooseP(p) == \E s \in {p.an, p.ns, p.ar} : \E i \in 1..Len(s) : LooseE("r", s[i])
JEq(ev) ==
  LET c == ev.c
      o == ev.o
      k == c.kind
      same == CASE k = "d" -> EqD(c.a, c.b) [] k = "p" -> EqP(c.a, c.b) [] OTHER -> EqE(Entry(k, c.a), Entry(k, c.b))
      loose == CASE k = "d" -> FALSE [] k = "p" -> LooseP(c.a) \/ LooseP(c.b) [] OTHER -> LooseE(k, c.a) \/ LooseE(k, c.b)
      bad(s) == Vs({"C24"}, s \o ", kind " \o k)
  IN IF Bad(ev) THEN Vs({"C24"}, "comparison does not return")
     ELSE If(o.c[1] # same, bad(IF same THEN "equal values differ" ELSE "different values are equal"))
       \cup If(o.c[2] # o.c[1], bad("equality is not symmetric"))
       \cup If(o.c[3] = o.c[1] \/ o.c[4] = o.c[2], bad("!= is not the negation of =="))
       \cup If(~o.c[5], bad("a value differs from itself"))
       \cup If(~o.c[6] \/ ~o.c[7] \/ o.c[8] # o.c[1], bad("a value differs from its copy"))
       \cup (IF loose THEN {}
             ELSE If(~o.own[1] \/ ~o.own[2], bad(IF k = "p" THEN "the same message, read plain and compressed, differs" ELSE "a value differs from what is read back"))
               \cup If(o.back[1] # same \/ o.back[2] # same, bad("equality of the values read back")))

(* --- mix, obs: calls and readings are functions of their arguments ------------------- *)
JMix(ev) ==
  IF Bad(ev) THEN Vs({"C25"}, "calls do not return")
  ELSE LET o == ev.o IN UNION {LET r == o.runs[i] IN
       If(r[2] # o.alone[r[1]], Vs({"C25"}, "result depends on other calls, kind " \o ev.c.calls[r[1]].k)) : i \in 1..Len(o.runs)}
JObs(ev) ==
  IF Bad(ev) THEN Vs({"C25"}, "reading does not return")
  ELSE If(~ev.o.same, Vs({"C25"}, "reading changes the value"))
       \cup UNION {If(\E j \in 1..(i - 1) : ev.c.ops[i] = ev.c.ops[j] /\ ev.o.r[i] # ev.o.r[j],
                      Vs({"C25"}, "repeated reading gives another result, " \o ev.c.ops[i])) : i \in 1..Len(ev.o.r)}

(* --- view: views and conversions of record data -------------------------------------- *)
JView(ev) ==
  LET c == ev.c
      t == c.t
      f == c.f
      o == ev.o.o
      x == ev.o.x
      w == RWire(t, f, {})
      m == RRead(t, w, 0, Len(w), ev.cf)
      k6 == t = 45 /\ f[2] = << 0 >>
      bad(s) == Vs({"C23"}, s \o ", type " \o ToString(t))
  IN IF Bad(ev) THEN Vs({"C23"}, "view does not return, type " \o ToString(t))
     ELSE If(o.ty # OwnType(t), bad("announced type"))
       \cup If(o.into.t # OwnType(t) \/ ~SameF(t, f, o.into.f), bad("wrapped data"))
       \cup If(Len(o.w) # Len(ev.o.w) \/ (t # 41 /\ o.w # ev.o.w) \/ (~k6 /\ (Len(o.w) # Len(w) \/ (t # 41 /\ o.w # w))), bad("bytes of the unwrapped data"))
       \cup If(o.bs # ev.o.bs \/ (~k6 /\ o.bs # Len(w) + (IF o.bs = Len(w) THEN 0 ELSE SizeExtra([t |-> t, f |-> f]))), bad("size of the unwrapped data"))
       \cup (IF m.st # "ok" \/ m.alts # {} THEN {}
             ELSE IF IsErr(o.tp) THEN bad("data is not read back by its own type")
             ELSE If(o.tp.v.t # OwnType(t) \/ ~SameF(t, f, o.tp.v.f), bad("data read back by its own type")))
       \cup CASE t \in {1, 28} ->
                  If(x.n # f[1] \/ x.un # f[1], bad("address as a number"))
                  \cup If(x.ip # f[1] \/ x["in"] # f[1], bad("address inside the record data"))
                  \cup UNION {LET a == IF t = 1 THEN ParseV4(c.txt[i]) ELSE ParseV6(c.txt[i]) IN
                              If(x.t[i] # a, bad("address from text"))
                              : i \in 1..Len(c.txt)}
             [] t = 12 -> If(x["in"] # f[1], bad("name inside the record data"))
             [] t = 45 -> If(x.gt # f[2][1], bad("kind of gateway"))
             [] t = 62 -> LET ws == FoldLeft(LAMBDA s, op : Append(s, FlagStep(Last1(s), op)), << U16(f[2]) >>, c.ops) IN
                          If(x.fl # [i \in 1..Len(ws) |-> << ws[i] % 2, ws[i] \div 2, ws[i] >>] \/ x.new # << 0, 0, 0 >>, bad("flags"))
             [] t = 64 -> If(x.alias # (f[1] = << 0, 0 >>), bad("mode"))
             [] t \in {43, 59} -> If(x.hex # HexText(f[4]), bad("text of the digest"))
             [] t \in {48, 60} -> If(x.b64 # Base64(f[5]), bad("text of the key"))
                                  \cup If(x.pr # f[3][1] \/ x.vp # (f[3] = << 3 >>), bad("protocol"))
             [] t = 46 -> If(x.b64 # Base64(f[9]) \/ x.sig # f[9], bad("text of the signature"))
                          \cup If(x.kt # U16(f[7]), bad("key tag"))
             [] OTHER -> {}

(* --- code: number tables ------------------------------------------------------------ *)
JCode(ev) ==
  LET t == ev.c.tab
      o == ev.o
      cf == ev.cf
      want == {n \in ev.c.lo..ev.c.hi : Member(t, n, cf)}
      got == {o.acc[i][1] : i \in 1..Len(o.acc)}
  IN IF Bad(ev) THEN Vs({"C13"}, "conversion does not return, table " \o t)
     ELSE If(want \ got # {}, Vs({"C13"}, "supported code rejected, table " \o t \o ": " \o ToString(want \ got)))
       \cup If(Cardinality(got \ want) > 0, Vs({"C13"}, "unsupported code accepted, table " \o t))
       \cup UNION {LET a == o.acc[i] IN
                   If(\E j \in 1..Len(a[2]) : a[2][j] # Canon(t, a[1]), Vs({"C13"}, "code " \o ToString(a[1]) \o " converts back to another number, table " \o t))
                   : i \in 1..Len(o.acc)}
       \cup UNION {LET r == o.rej[i] IN
                   If(r[3] \notin ErrKinds(t) \/ (~r[4] /\ ~(t = "qclass" /\ r[1] >= 32768)),
                      Vs({"C13"}, "error for an unsupported code, table " \o t)) : i \in 1..Len(o.rej)}

(* --- rrset ---------------------------------------------------------------------------- *)
JRrset(ev) ==
  LET c == ev.c
      ws == Datas(c.t, c.ds, {})                                            \* canonical
      pl == [i \in 1..Len(c.ds) |-> RWire(c.t, c.ds[i].f, {})]              \* as spelled
  IN IF Bad(ev) THEN Vs({"C16"}, "record set operation does not return")
     ELSE UNION {LET o == ev.o[k]
                     pm == c.perms[k]
                     mine == [i \in 1..Len(pm) |-> ws[pm[i] + 1]]
                     want == SetWire(c.n, c.t, c.c, c.ttl, mine)
                     x == IF c.t = 64 THEN FoldLeft(LAMBDA a, i : a + SizeExtra(c.ds[pm[i] + 1]), 0, [i \in 1..Len(pm) |-> i]) ELSE 0
                 IN If(o.b # want, Vs({"C16"}, "serialisation of a record set"))
                    \cup SizeJudge(o.bs, Len(o.b), x, "size of record set")
                    \cup If([i \in 1..Len(o.idx) |-> ws[o.idx[i] + 1]] # Canonical(mine), Vs({"C16"}, "order after canonical reordering"))
                    \cup If(o.ord # [i \in 1..Len(o.idx) |-> pl[o.idx[i] + 1]], Vs({"C16"}, "members changed by reordering"))
                    \cup If(\E i \in 1..Len(pm) : Cardinality({j \in 1..Len(pm) : pm[j] = pm[i]}) # Cardinality({j \in 1..Len(o.idx) : o.idx[j] = pm[i]}),
                            Vs({"C16"}, "members lost by reordering"))
                    \cup If(~o.same, Vs({"C16"}, "serialisation depends on the order of the members"))
                    \cup If(~o.acc, Vs({"C16"}, "accessors of a record set"))
                 : k \in 1..Len(c.perms)}

(* --- names as values ---------------------------------------------------------------------- *)
FqObs(l, o, w) ==
  LET bad(x) == Vs({"C19"}, x \o " of a name built by " \o w) IN
  If(o.l # l \/ o.it # l, bad("labels"))
  \cup If(o.lc # Len(l) % 256, bad("label count"))
  \cup If(o.root # IsRootName(l), bad("root test"))
  \cup If(o.ll # IsLinkLocal(l), bad("link-local test"))
  \cup If(o.em # (l = << >>), bad("empty test"))
  \cup If((\A i \in 1..Len(l) : IsUtf8(l[i])) /\ o.txt # NameText(l), bad("text"))
  \cup If(o.bs # Len(o.w) \/ o.len # o.bs, Vs({"C07", "C19"}, "size of a name built by " \o w))
  \cup If((\A i \in 1..Len(l) : Len(l[i]) <= 63) /\ o.w # NameWire(l), Vs({"C08"}, "wire form of a name built by " \o w))
JFq(ev) ==
  LET l == ev.c.l IN
  IF Bad(ev) THEN Vs({"C19"}, "name operation does not return")
  ELSE UNION {FqObs(IF w \in {"wire"} THEN Solid(l) ELSE IF w \in {"new", "from"} THEN TextName(ev.c.txt)
                    ELSE IF w = "mix" /\ l # << >> /\ l[1] = << >> THEN Tail(l) ELSE l,
                    ev.o[w], w) : w \in DOMAIN ev.o}
       \cup If("wire" \notin DOMAIN ev.o /\ ValidName(Solid(l)) /\ Len(l) > 0, Vs({"C06"}, "valid name rejected"))
JFcmp(ev) ==
  LET c == NameCmp(ev.c.a, ev.c.b)
      o == ev.o
  IN IF Bad(ev) THEN Vs({"C19"}, "comparison does not return")
     ELSE If(o.eq # (c = 0) \/ o.ne # (c # 0), Vs({"C19"}, "equality of names"))
       \cup If(o.cmp # c \/ o.pc # c \/ o.rev # -c \/ o.lt # (c < 0), Vs({"C19"}, "order of names"))
       \cup If(~o.cl, Vs({"C19"}, "clone of a name"))

(* --- digests ------------------------------------------------------------------------------- *)
HexDigit == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F" >>
Hex(v) == FoldLeft(LAMBDA a, x : a \o HexDigit[(x \div 16) + 1] \o HexDigit[(x % 16) + 1], "", v)
JDhcid(ev) ==
  LET c == ev.c IN
  IF Bad(ev) THEN Vs({"C18"}, "DHCID does not return")
  ELSE IF c.pre # c.id \o NameWire(LowerName(c.n)) THEN Vs({"TOOL"}, "digest input of the case")
  ELSE If(ev.o.v.f # << W16(c.code), ev.o.want >>, Vs({"C18"}, "DHCID digest"))
KeyData(k) == k[1] \o k[2] \o k[3] \o k[4] \o k[5]
JDs(ev) ==
  LET c == ev.c
      o == ev.o
      kd == KeyData(c.key)
  IN IF Bad(ev) THEN Vs({"C18"}, "DS does not return")
     ELSE IF c.pre # NameWire(LowerName(c.n)) \o kd THEN Vs({"TOOL"}, "digest input of the case")
     ELSE IF IsErr(o) THEN Vs({"C18"}, "DS not created: " \o o.e)
     ELSE IF Len(o.v.f) # 4 THEN Vs({"C18"}, "DS fields")
     ELSE If(o.v.f[1] # W16(KeyTag(kd)), Vs({"C18"}, "key tag"))
       \cup If(o.v.f[2] # c.key[4] \/ o.v.f[3] # << c.dt >>, Vs({"C18"}, "algorithm or digest type"))
       \cup If(o.v.f[4] # o.want, Vs({"C18"}, "digest of DS"))
       \cup If(o.hex # Hex(o.want), Vs({"C18"}, "digest text"))

(* --- signatures ------------------------------------------------------------------------------- *)
NoSign == {252, 253, 254}
Secs4(t) == SubSeq(t[1], 5, 8)      \* low 32 bits of the seconds
(* an RSA key is a pair of numbers; the length of the exponent takes one or three octets *)
RECURSIVE Strip0(_)
Strip0(v) == IF v # << >> /\ v[1] = 0 THEN Strip0(Tail(v)) ELSE v
RsaKey(pk) ==
  IF pk = << >> \/ (pk[1] = 0 /\ Len(pk) < 3) THEN << >>
  ELSE LET h == IF pk[1] = 0 THEN 3 ELSE 1
           n == IF pk[1] = 0 THEN U16(SubSeq(pk, 2, 3)) ELSE pk[1]
       IN IF h + n > Len(pk) THEN << >> ELSE << Strip0(SubSeq(pk, h + 1, h + n)), Strip0(SubSeq(pk, h + n + 1, Len(pk))) >>
SameKey(alg, a, b) == a = b \/ (alg \in {1, 5, 8, 10} /\ RsaKey(a) # << >> /\ RsaKey(a) = RsaKey(b))
JSign(ev) ==
  LET c == ev.c
      o == ev.o
      s == c.set
      kd == << 1 >> \o << c.sep >> \o << 3 >> \o << c.alg >> \o c.pk
      want == << W16(s.t), << c.alg >>, << SigLabels(s.n) >>, s.ttl, Secs4(c.exp), Secs4(c.inc), W16(KeyTag(kd)), s.n >>
      low(f) == [i \in 1..8 |-> IF i = 7 THEN << >> ELSE IF i = 8 THEN LowerName(f[8]) ELSE f[i]]
      in0 == SigInput(o.sig.f, s, {})
      try(a, r) ==       \* one verification attempt
        LET f == r.f
            same == /\ SigInput(f, a.set, {}) = in0
                    /\ f[9] = o.sig.f[9]
                    /\ SameKey(c.alg, a.pk, c.pk)
        IN IF same /\ f[2] = << c.alg >> THEN If(r.r # "T", Vs({"C17"}, "genuine signature is not accepted"))
           ELSE If(r.r = "T", Vs({"C17"}, "signature accepted for something that was not signed"))
  IN IF Bad(ev) THEN Vs({"C17"}, "signing or verifying does not return")
     ELSE IF IsErr(o.sig) THEN
       IF c.alg \in NoSign THEN If(o.sig.e # "InvalidDnsSecAlgorithm" \/ o.sig.n # c.alg, Vs({"C13"}, "error for an algorithm without signatures"))
       ELSE Vs({"C17"}, "record set can not be signed: " \o o.sig.e)
     ELSE IF c.alg \in NoSign THEN Vs({"C17"}, "signature without an algorithm")
     ELSE IF Len(o.sig.f) # 9 THEN Vs({"C17"}, "signature record fields")
     ELSE If(low(o.sig.f) # low(want), Vs({"C17"}, "fields of the signature record"))
       \cup If(o.sig.f[7] # want[7], Vs({"C17", "C18"}, "key tag of the signature record"))
       \cup If(o.sig.kt # U16(o.sig.f[7]), Vs({"C17"}, "key tag accessor"))
       \cup If(~o.own, Vs({"C17"}, "fresh signature is not accepted"))
       \cup (IF c.pre = << >> THEN {}
             ELSE IF c.pre # SigInput(want, s, {}) THEN Vs({"TOOL"}, "signed data of the case")
             ELSE If(~o.ind, Vs({"C17"}, "signature does not cover the standard input"))
               \cup If(~o.for, Vs({"C17"}, "signature made elsewhere over the standard input is not accepted")))
       \cup If(Len(o.at) # Len(c.at), Vs({"C17"}, "attempts missing"))
       \cup (IF Len(o.at) # Len(c.at) THEN {} ELSE UNION {try(c.at[i], o.at[i]) : i \in 1..Len(c.at)})

Judge(ev) ==
  CASE ev.x = 2 -> Vs({"TOOL"}, "malformed case: " \o ev.o.panic)
    [] ev.k = "enc" -> JEnc(ev)
    [] ev.k = "dec" -> JDec(ev)
    [] ev.k = "rd" -> JRd(ev)
    [] ev.k = "name" -> JName(ev)
    [] ev.k = "cur" -> JCur(ev)
    [] ev.k = "hdr" -> JHdr(ev)
    [] ev.k = "hdrt" -> JHdrT(ev)
    [] ev.k = "hdrw" -> JHdrW(ev)
    [] ev.k = "hist" -> JHist(ev)
    [] ev.k = "edit" -> JEdit(ev)
    [] ev.k = "view" -> JView(ev)
    [] ev.k = "eq" -> JEq(ev)
    [] ev.k = "mix" -> JMix(ev)
    [] ev.k = "obs" -> JObs(ev)
    [] ev.k = "code" -> JCode(ev)
    [] ev.k = "rrset" -> JRrset(ev)
    [] ev.k = "fq" -> JFq(ev)
    [] ev.k = "fcmp" -> JFcmp(ev)
    [] ev.k = "dhcid" -> JDhcid(ev)
    [] ev.k = "ds" -> JDs(ev)
    [] ev.k = "sign" -> JSign(ev)
=============================================================================
