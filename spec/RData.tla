------------------------------- MODULE RData -------------------------------
(* Wire formats of record data. A value of type t is a sequence of fields;   *)
(* Schema(t) says how the fields are laid out. Writing gives a sequence of   *)
(* parts (bytes, compressible names, option sets), reading gives one of      *)
(*   ok   the standard defines the value f                                   *)
(*   may  tolerated: may be rejected; if it is accepted the value is f       *)
(*   any  not judged                                                         *)
(*   rej  invalid, must be rejected; why says in which respect               *)
(* together with the outcomes of the recorded deviations (alts, by tag).     *)
EXTENDS Names, Codes

Fx(n) == [k |-> "fix", n |-> n]
Cd(n, tab) == [k |-> "code", n |-> n, tab |-> tab]
Zn == [k |-> "name", z |-> TRUE]        \* may be compressed when written
Pn == [k |-> "name", z |-> FALSE]       \* always spelled out
Kd(k) == [k |-> k]

Schema(t) ==
  CASE t = 1 -> << Fx(4) >>
    [] t \in {2, 5, 12} -> << Zn >>
    [] t = 6 -> << Zn, Zn, Fx(4), Fx(4), Fx(4), Fx(4), Fx(4) >>
    [] t \in {10, 61} -> << Kd("rest") >>
    [] t = 11 -> << Fx(4), Fx(1), Kd("rest") >>
    [] t = 13 -> << Kd("cs"), Kd("cs") >>
    [] t = 14 -> << Zn, Zn >>
    [] t = 15 -> << Fx(2), Zn >>
    [] t = 16 -> << Kd("strs") >>
    [] t = 28 -> << Fx(16) >>
    [] t = 29 -> << Fx(1), Fx(1), Fx(1), Fx(1), Fx(4), Fx(4), Fx(4) >>
    [] t = 33 -> << Fx(2), Fx(2), Fx(2), Zn >>
    [] t = 35 -> << Fx(2), Fx(2), Kd("csf"), Kd("cs"), Kd("csu"), Zn >>
    [] t = 41 -> << Kd("opts") >>
    [] t = 42 -> << Kd("apl") >>
    [] t \in {43, 59} -> << Fx(2), Cd(1, "dsalg"), Cd(1, "digest"), Kd("rest") >>
    [] t = 44 -> << Cd(1, "sshalg"), Cd(1, "fptype"), Kd("rest") >>
    [] t = 45 -> << Kd("ipsec") >>
    [] t = 46 -> << Cd(2, "rtype"), Cd(1, "dsalg"), Fx(1), Fx(4), Fx(4), Fx(4), Fx(2), Pn, Kd("rest") >>
    [] t = 47 -> << Zn, Kd("bitmap") >>
    [] t \in {48, 60} -> << Kd("keyf"), Fx(1), Cd(1, "dsalg"), Kd("rest") >>
    [] t = 49 -> << Cd(2, "ident"), Kd("sha256"), Kd("rest") >>
    [] t = 52 -> << Cd(1, "tlsause"), Cd(1, "tlsasel"), Cd(1, "tlsamat"), Kd("rest") >>
    [] t = 55 -> << Kd("hip") >>
    [] t = 62 -> << Fx(4), Cd(2, "csync"), Kd("bitmap") >>
    [] t = 64 -> << Fx(2), Pn, Kd("params") >>
    [] t = 108 -> << Fx(6) >>
    [] t = 109 -> << Fx(8) >>
    [] t = 249 -> << Pn, Fx(4), Fx(4), Cd(2, "tkmode"), Cd(2, "tkerr"), Kd("l16"), Kd("l16") >>
    [] t = 250 -> << Pn, Fx(6), Fx(2), Kd("l16"), Fx(2), Cd(2, "tserr"), Kd("l16") >>
    [] t = 256 -> << Fx(2), Fx(2), Kd("rest1") >>
    [] t = 257 -> << Kd("caaf"), Kd("tag"), Kd("rest") >>

(* --- type bitmaps (RFC 4034, 4.1.2) ------------------------------------- *)
Pow2 == << 128, 64, 32, 16, 8, 4, 2, 1 >>
RECURSIVE SumBits(_, _)
SumBits(S, i) == IF i > 8 THEN 0 ELSE (IF (i - 1) \in S THEN Pow2[i] ELSE 0) + SumBits(S, i + 1)
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
Window(T, w) ==
  LET here == {t % 256 : t \in {t \in T : t \div 256 = w}}
      top == MaxSet(here) \div 8
      octet(o) == SumBits({x % 8 : x \in {x \in here : x \div 8 = o}}, 1)
  IN << w, top + 1 >> \o [o \in 1..(top + 1) |-> octet(o - 1)]
SortNum(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
BitmapWire(ts) ==
  LET T == {ts[i] : i \in 1..Len(ts)}
      ws == SortNum({t \div 256 : t \in T})
  IN Cat([i \in 1..Len(ws) |-> Window(T, ws[i])])

BitsOf(x) == {i \in 0..7 : (x \div Pow2[i + 1]) % 2 = 1}
RECURSIVE BitmapRead(_, _, _)
(* s = [pos, st, T, w]: T types so far, w last window *)
BitmapRead(b, e, s) ==
  IF s.st = "rej" \/ s.pos = e THEN s
  ELSE IF s.pos + 2 > e THEN [s EXCEPT !.st = "rej"]
  ELSE LET w == b[s.pos + 1]
           n == b[s.pos + 2]
           here == UNION {{256 * w + 8 * o + x : x \in BitsOf(b[s.pos + 3 + o])} : o \in 0..(n - 1)}
           lax == n = 0 \/ w <= s.w \/ (n > 0 /\ b[s.pos + 2 + n] = 0)
       IN IF n > 32 \/ s.pos + 2 + n > e THEN [s EXCEPT !.st = "rej"]
          ELSE BitmapRead(b, e, [pos |-> s.pos + 2 + n, T |-> s.T \cup here, w |-> w,
                                 st |-> IF lax THEN "may" ELSE s.st])

(* --- service parameters (RFC 9460) --------------------------------------- *)
NumLess(a, b) == LexCmp(a, b) < 0
SortParams(ps) ==
  LET one(p) == IF p[1] = << 0, 0 >> THEN << p[1], SortSeq(p[2], NumLess) >> ELSE p
  IN SortSeq([i \in 1..Len(ps) |-> one(ps[i])], LAMBDA x, y : NumLess(x[1], y[1]))
ParamValue(p) ==
  LET k == U16(p[1]) IN
    IF k = 1 THEN Cat([i \in 1..Len(p[2]) |-> << Len(p[2][i]) >> \o p[2][i]])
    ELSE Cat(p[2])
ParamWire(p) == LET v == ParamValue(p) IN p[1] \o W16(Len(v)) \o v
ParamsWire(ps) == LET s == SortParams(ps) IN Cat([i \in 1..Len(s) |-> ParamWire(s[i])])

Chunks(v, n) == [i \in 1..(Len(v) \div n) |-> SubSeq(v, n * (i - 1) + 1, n * i)]
RECURSIVE Strings(_, _, _)
(* character strings that fill v; << -1 >> at the end: the last one runs over *)
Strings(v, i, acc) ==
  IF i > Len(v) THEN acc
  ELSE IF i + v[i] > Len(v) THEN Append(acc, << -1 >>)
  ELSE Strings(v, i + 1 + v[i], Append(acc, SubSeq(v, i + 1, i + v[i])))
Overrun(ss) == ss # << >> /\ Last1(ss) = << -1 >>

PVal(st, v) == [st |-> st, v |-> v]
ParamRead(k, v, cf) ==
  CASE k = 0 -> LET ks == Chunks(v, 2) IN
                IF Len(v) % 2 # 0 THEN PVal("rej", << >>)
                ELSE IF \E i \in 1..Len(ks) : ~Member("svckey", U16(ks[i]), cf) THEN PVal("rej", << >>)
                ELSE IF Len(v) = 0 \/ \E i \in 1..(Len(ks) - 1) : ~NumLess(ks[i], ks[i + 1])
                     THEN PVal("may", SetToSortSeq({ks[i] : i \in 1..Len(ks)}, NumLess)) ELSE PVal("ok", ks)
    [] k = 1 -> LET ss == Strings(v, 1, << >>) IN
                IF Overrun(ss) THEN PVal("rej", << >>)
                ELSE IF ss = << >> \/ \E i \in 1..Len(ss) : ss[i] = << >> THEN PVal("may", ss) ELSE PVal("ok", ss)
    [] k = 2 -> IF v = << >> THEN PVal("ok", << >>) ELSE PVal("rej", << >>)
    [] k = 3 -> IF Len(v) = 2 THEN PVal("ok", << v >>) ELSE PVal("rej", << >>)
    [] k \in {4, 6} -> LET n == IF k = 4 THEN 4 ELSE 16 IN
                IF Len(v) = n THEN PVal("ok", << v >>)
                ELSE IF Len(v) > n /\ Len(v) % n = 0 THEN PVal("many", Chunks(v, n))
                ELSE PVal("rej", << >>)
    [] k = 5 -> PVal(IF v = << >> THEN "may" ELSE "ok", << v >>)
    [] k >= 65280 /\ k <= 65534 -> PVal("ok", << v >>)
    [] k = 65535 -> PVal(IF v = << >> THEN "may" ELSE "any", << >>)
    [] OTHER -> PVal("rej", << >>)

Worse(a, b) == IF a = "rej" \/ b = "rej" THEN "rej"
               ELSE IF a = "any" \/ b = "any" THEN "any"
               ELSE IF a = "may" \/ b = "may" THEN "may" ELSE "ok"

RECURSIVE ParamsRead(_, _, _, _)
(* s = [pos, st, ps, many] *)
ParamsRead(b, e, cf, s) ==
  IF s.st = "rej" \/ s.pos = e THEN s
  ELSE IF s.pos + 4 > e THEN [s EXCEPT !.st = "rej"]
  ELSE LET k == Cut(b, s.pos, 2)
           n == U16(Cut(b, s.pos + 2, 2))
       IN IF s.pos + 4 + n > e THEN [s EXCEPT !.st = "rej"]
          ELSE LET r == ParamRead(U16(k), Cut(b, s.pos + 4, n), cf)
                   dup == \E i \in 1..Len(s.ps) : s.ps[i][1] = k
               IN ParamsRead(b, e, cf,
                    [pos |-> s.pos + 4 + n, ps |-> Append(s.ps, << k, r.v >>), many |-> s.many \/ r.st = "many",
                     st |-> Worse(Worse(s.st, IF r.st = "many" THEN "ok" ELSE r.st), IF dup THEN "any" ELSE "ok")])

(* --- EDNS options (RFC 6891) ---------------------------------------------- *)
SortOpts(os) == SortSeq(os, LAMBDA x, y : NumLess(x[1], y[1]))
OptWire(o) == o[1] \o W16(Len(o[2])) \o o[2]
OptsWire(os) == Cat([i \in 1..Len(os) |-> OptWire(os[i])])
RECURSIVE OptsRead(_, _, _)
OptsRead(b, e, s) ==
  IF s.st = "rej" \/ s.pos = e THEN s
  ELSE IF s.pos + 4 > e THEN [s EXCEPT !.st = "rej"]
  ELSE LET k == Cut(b, s.pos, 2)
           n == U16(Cut(b, s.pos + 2, 2))
           dup == \E i \in 1..Len(s.os) : s.os[i][1] = k
       IN IF s.pos + 4 + n > e THEN [s EXCEPT !.st = "rej"]
          ELSE OptsRead(b, e, [pos |-> s.pos + 4 + n, os |-> Append(s.os, << k, Cut(b, s.pos + 4, n) >>),
                               st |-> IF dup THEN "any" ELSE s.st])

(* --- address prefix lists (RFC 3123) --------------------------------------- *)
RECURSIVE Trim0(_)
Trim0(v) == IF v # << >> /\ Last1(v) = 0 THEN Trim0(SubSeq(v, 1, Len(v) - 1)) ELSE v
AplItem(f) == LET a == Trim0(f[4]) IN f[1] \o f[2] \o << 128 * f[3][1] + Len(a) >> \o a
RECURSIVE AplRead(_, _, _)
(* s = [pos, st, fs, why]: fs one sequence of four fields per item *)
AplRead(b, e, s) ==
  IF s.st = "rej" \/ s.pos = e THEN s
  ELSE IF s.pos + 4 > e THEN [s EXCEPT !.st = "rej", !.why = "short"]
  ELSE LET h == Cut(b, s.pos, 4)
           fam == U16(h)
           n == h[4] % 128
           w == IF fam = 1 THEN 4 ELSE 16
       IN IF s.pos + 4 + n > e THEN [s EXCEPT !.st = "rej", !.why = "short"]
          ELSE IF fam \notin {1, 2} THEN [s EXCEPT !.st = "rej", !.why = "code"]
          ELSE IF n > w THEN [s EXCEPT !.st = "rej", !.why = "len"]
          ELSE LET a == Cut(b, s.pos + 4, n)
               IN AplRead(b, e, [pos |-> s.pos + 4 + n, why |-> "",
                     fs |-> Append(s.fs, << SubSeq(h, 1, 2), << h[3] >>, << h[4] \div 128 >>, a \o Zeros(w - n) >>),
                     st |-> Worse(s.st, IF n > 0 /\ Last1(a) = 0 THEN "may" ELSE "ok")])

(* --- writing --------------------------------------------------------------- *)
Bp(v) == << [k |-> "b", v |-> v] >>
Zp(v) == << [k |-> "n", v |-> v] >>
Op(v) == << [k |-> "o", v |-> v] >>
Pfx(v) == << Len(v) >> \o v

(* D: the recorded deviations to reproduce *)
Gateway(f, D) ==
  CASE f[2] = << 0 >> -> IF "K6" \in D THEN << 46 >> ELSE << >>
    [] f[2] = << 3 >> -> NameWire(f[5])
    [] OTHER -> f[4]

FParts(fd, f, i, D) ==
  CASE fd.k \in {"fix", "code", "rest", "rest1"} -> [n |-> 1, p |-> Bp(f[i])]
    [] fd.k = "sha256" -> [n |-> 0, p |-> Bp(<< 1 >>)]
    [] fd.k = "name" -> [n |-> 1, p |-> IF fd.z THEN Zp(f[i]) ELSE Bp(NameWire(f[i]))]
    [] fd.k \in {"cs", "csu", "csf", "tag"} -> [n |-> 1, p |-> Bp(Pfx(f[i]))]
    [] fd.k = "l16" -> [n |-> 1, p |-> Bp(W16(Len(f[i])) \o f[i])]
    [] fd.k = "strs" -> [n |-> 1, p |-> Bp(Cat([j \in 1..Len(f[i]) |-> Pfx(f[i][j])]))]
    [] fd.k = "bitmap" -> [n |-> 1, p |-> Bp(BitmapWire(f[i]))]
    [] fd.k = "opts" -> [n |-> 1, p |-> Op(f[i])]
    [] fd.k = "params" -> [n |-> 1, p |-> Bp(ParamsWire(f[i]))]
    [] fd.k = "caaf" -> [n |-> 1, p |-> Bp(<< 128 * f[i][1] >>)]
    [] fd.k = "keyf" -> [n |-> 2, p |-> Bp(f[i] \o f[i + 1])]
    [] fd.k = "ipsec" -> [n |-> 6, p |-> Bp(f[1] \o f[2] \o f[3] \o Gateway(f, D) \o f[6])]
    [] fd.k = "hip" -> [n |-> 4, p |-> Bp(<< Len(f[2]) >> \o f[1] \o W16(Len(f[3])) \o f[2] \o f[3]
                                          \o Cat([j \in 1..Len(f[4]) |-> NameWire(f[4][j])]))]
    [] fd.k = "apl" -> [n |-> Len(f), p |-> Bp(Cat([j \in 1..(Len(f) \div 4) |-> AplItem(SubSeq(f, 4 * j - 3, 4 * j))]))]

Parts(t, f, D) ==
  FoldLeft(LAMBDA s, fd : LET r == FParts(fd, f, s.i, D) IN [i |-> s.i + r.n, p |-> s.p \o r.p],
           [i |-> 1, p |-> << >>], Schema(t)).p
PartWire(x) == CASE x.k = "b" -> x.v [] x.k = "n" -> NameWire(x.v) [] x.k = "o" -> OptsWire(x.v)
RWire(t, f, D) == LET p == Parts(t, f, D) IN Cat([i \in 1..Len(p) |-> PartWire(p[i])])

(* --- reading ---------------------------------------------------------------- *)
RS(p) == [pos |-> p, st |-> "ok", f |-> << >>, alts |-> {}, why |-> ""]
RRej(s, w) == [s EXCEPT !.st = "rej", !.why = w]
RPush(s, v, n) == [s EXCEPT !.f = Append(s.f, v), !.pos = s.pos + n]
RSt(s, x) == [s EXCEPT !.st = Worse(s.st, x)]
AltOk(tag, f) == [tag |-> tag, st |-> "ok", f |-> f]
AltRej(tag) == [tag |-> tag, st |-> "rej", f |-> << >>]
IsAlnum(v) == \A i \in 1..Len(v) : v[i] \in (48..57) \cup (65..90) \cup (97..122)
NameWhy(r) == IF r.why = "trunc" THEN "nshort" ELSE r.why

RECURSIVE HipNames(_, _, _)
HipNames(b, e, s) ==    \* s = [pos, st, ns, why]
  IF s.st = "rej" \/ s.pos = e THEN s
  ELSE LET r == Resolve(b, e, s.pos)
       IN IF r.st = "rej" THEN [s EXCEPT !.st = "rej", !.why = NameWhy(r)]
          ELSE HipNames(b, e, [pos |-> r.nxt, ns |-> Append(s.ns, r.lab), why |-> "",
                               st |-> IF r.odd \/ r.hop > 0 THEN "may" ELSE s.st])

FRead(b, e, cf, fd, s) ==
  LET left == e - s.pos
      rest == Cut(b, s.pos, left)
  IN
  CASE fd.k = "fix" -> IF left < fd.n THEN RRej(s, "short") ELSE RPush(s, Cut(b, s.pos, fd.n), fd.n)
    [] fd.k = "code" ->
         IF left < fd.n THEN RRej(s, "short")
         ELSE LET v == Cut(b, s.pos, fd.n)
              IN IF Member(fd.tab, IF fd.n = 1 THEN v[1] ELSE U16(v), cf) THEN RPush(s, v, fd.n) ELSE RRej(s, "code")
    [] fd.k = "sha256" -> IF left < 1 THEN RRej(s, "short")
                          ELSE IF b[s.pos + 1] # 1 THEN RRej(s, "code") ELSE [s EXCEPT !.pos = s.pos + 1]
    [] fd.k = "name" ->
         LET r == Resolve(b, e, s.pos)
         IN IF r.st = "rej" THEN RRej(s, NameWhy(r))
            ELSE RSt(RPush(s, r.lab, r.nxt - s.pos), IF r.odd \/ (~fd.z /\ r.hop > 0) THEN "may" ELSE "ok")
    [] fd.k \in {"cs", "csu", "csf"} ->
         IF left < 1 THEN RRej(s, "short")
         ELSE LET n == b[s.pos + 1] IN
           IF left < 1 + n THEN RRej(s, "short")
           ELSE LET v == Cut(b, s.pos + 1, n) IN
             IF fd.k = "csu" /\ ~IsUtf8(v) THEN RRej(s, "utf8")
             ELSE IF fd.k = "csf" /\ \E i \in 1..n : ~Member("naptr", v[i], cf) THEN RRej(s, "code")
             ELSE RPush(s, v, 1 + n)
    [] fd.k = "rest" -> RPush(s, rest, left)
    [] fd.k = "rest1" -> RSt(RPush(s, rest, left), IF left = 0 THEN "may" ELSE "ok")
    [] fd.k = "l16" ->
         IF left < 2 THEN RRej(s, "short")
         ELSE LET n == U16(Cut(b, s.pos, 2)) IN
           IF left < 2 + n THEN RRej(s, "short") ELSE RPush(s, Cut(b, s.pos + 2, n), 2 + n)
    [] fd.k = "strs" ->
         LET ss == Strings(rest, 1, << >>) IN
           IF Overrun(ss) THEN RRej(s, "short")
           ELSE LET r == RSt(RPush(s, ss, left), IF ss = << >> THEN "may" ELSE "ok") IN
             IF \A i \in 1..Len(ss) : IsUtf8(ss[i]) THEN r
             ELSE [r EXCEPT !.alts = {AltOk("K2", << [i \in 1..Len(ss) |-> Lossy(ss[i])] >>)}]
    [] fd.k = "bitmap" ->
         LET r == BitmapRead(b, e, [pos |-> s.pos, st |-> "ok", T |-> {}, w |-> -1]) IN
           IF r.st = "rej" \/ ~(r.T \subseteq RTypes(cf)) THEN RRej(s, "bitmap")
           ELSE RSt(RPush(s, SortNum(r.T), left), r.st)
    [] fd.k = "opts" ->
         LET r == OptsRead(b, e, [pos |-> s.pos, st |-> "ok", os |-> << >>]) IN
           IF r.st = "rej" THEN RRej(s, "param") ELSE RSt(RPush(s, SortOpts(r.os), left), r.st)
    [] fd.k = "params" ->
         LET r == ParamsRead(b, e, cf, [pos |-> s.pos, st |-> "ok", ps |-> << >>, many |-> FALSE]) IN
           IF r.st = "rej" THEN RRej(s, "param")
           ELSE LET q == RSt(RPush(s, SortParams(r.ps), left), r.st) IN
             IF r.many THEN [q EXCEPT !.alts = {AltRej("K7")}] ELSE q
    [] fd.k = "caaf" -> IF left < 1 THEN RRej(s, "short") ELSE RPush(s, << b[s.pos + 1] \div 128 >>, 1)
    [] fd.k = "tag" ->
         IF left < 1 THEN RRej(s, "short")
         ELSE LET n == b[s.pos + 1] IN
           IF n = 0 THEN RRej(s, "len")
           ELSE IF left < 1 + n THEN RRej(s, "short")
           ELSE LET v == Cut(b, s.pos + 1, n) IN
             IF ~IsUtf8(v) THEN RRej(s, "utf8")
             ELSE RSt(RPush(s, v, 1 + n), IF IsAlnum(v) THEN "ok" ELSE "may")
    [] fd.k = "keyf" ->
         IF left < 2 THEN RRej(s, "short")
         ELSE RPush(RPush(s, << b[s.pos + 1] % 2 >>, 0), << b[s.pos + 2] % 2 >>, 2)
    [] fd.k = "ipsec" ->
         IF left < 3 THEN RRej(s, "short")
         ELSE LET h == Cut(b, s.pos, 3)
                  all(gb, gn, p) == [s EXCEPT !.pos = e,
                                     !.f = << << h[1] >>, << h[2] >>, << h[3] >>, gb, gn, Cut(b, p, e - p) >>]
                  at == s.pos + 3
              IN IF h[3] \notin 0..5 \/ h[2] > 3 THEN RRej(s, "code")
                 ELSE IF h[2] = 0 THEN
                   [all(<< >>, << >>, at) EXCEPT !.alts =
                      {IF at = e THEN AltRej("K6") ELSE AltOk("K6", all(<< >>, << >>, at + 1).f)}]
                 ELSE IF h[2] \in {1, 2} THEN
                   LET n == IF h[2] = 1 THEN 4 ELSE 16 IN
                     IF at + n > e THEN RRej(s, "short") ELSE all(Cut(b, at, n), << >>, at + n)
                 ELSE LET r == Resolve(b, e, at) IN
                   IF r.st = "rej" THEN RRej(s, NameWhy(r))
                   ELSE RSt(all(<< >>, r.lab, r.nxt), IF r.odd \/ r.hop > 0 THEN "may" ELSE "ok")
    [] fd.k = "hip" ->
         IF left < 4 THEN RRej(s, "short")
         ELSE LET h == Cut(b, s.pos, 4)
                  n1 == h[1]
                  n2 == 256 * h[3] + h[4]
              IN IF h[2] \notin 0..5 THEN RRej(s, "code")
                 ELSE IF left < 4 + n1 + n2 THEN RRej(s, "short")
                 ELSE LET r == HipNames(b, e, [pos |-> s.pos + 4 + n1 + n2, st |-> "ok", ns |-> << >>, why |-> ""])
                      IN IF r.st = "rej" THEN RRej(s, r.why)
                         ELSE RSt([s EXCEPT !.pos = e, !.f = << << h[2] >>, Cut(b, s.pos + 4, n1),
                                                               Cut(b, s.pos + 4 + n1, n2), r.ns >>], r.st)
    [] fd.k = "apl" ->
         LET r == AplRead(b, e, [pos |-> s.pos, st |-> "ok", fs |-> << >>, why |-> ""])
             first == IF r.fs # << >> THEN {AltOk("K5", r.fs[1])} ELSE {}
         IN IF left = 0 THEN [s EXCEPT !.alts = {AltRej("K5")}]
            ELSE IF r.st = "rej" THEN [RRej(s, r.why) EXCEPT !.alts = first]
            ELSE [RSt([s EXCEPT !.pos = e, !.f = Cat(r.fs)], r.st) EXCEPT !.alts = IF Len(r.fs) > 1 THEN first ELSE {}]

(* Data of type t at offsets p..e-1 of message b. *)
RRead(t, b, p, e, cf) ==
  LET r == FoldLeft(LAMBDA s, fd : IF s.st = "rej" THEN s ELSE FRead(b, e, cf, fd, s), RS(p), Schema(t))
  IN IF r.st # "rej" /\ r.pos < e THEN RSt(r, "may") ELSE r

(* Comparable form of a value reported by the implementation. *)
NormF(t, f) == IF t = 64 /\ Len(f) = 3 THEN << f[1], f[2], SortParams(f[3]) >>
               ELSE IF t = 41 /\ Len(f) = 1 THEN << SortOpts(f[1]) >> ELSE f
SameF(t, f, g) == Len(f) = Len(g) /\ NormF(t, f) = NormF(t, g)

(* Announced size; K1: four bytes too many per service parameter. *)
SizeExtra(d) == IF d.t = 64 THEN 4 * Len(d.f[3]) ELSE 0
=============================================================================
