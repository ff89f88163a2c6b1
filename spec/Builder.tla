------------------------------ MODULE Builder ------------------------------
(* Histories of packet operations (C04, C20). *)
EXTENDS BuilderOps, Json
CONSTANTS TOK, MAXLEN, GEN,
          COUNTS            \* where the wire counts come from: "sections" or (a known-bad design) "header"
VARIABLES p, last, ret
vars == << p, last, ret >>

Lists == {<< >>} \cup {<< t >> : t \in TOK} \cup {<< t, u >> : t \in TOK, u \in TOK}
Ops == {<< "addq", t >> : t \in TOK} \cup {<< "setq", l >> : l \in Lists} \cup {<< "takeq" >>, << "qpop" >>, << "qclear" >>}
       \cup {<< "qpush", t >> : t \in TOK} \cup {<< "qins", t >> : t \in TOK}
       \cup {<< "add", i, t, 1 >> : i \in 1..3, t \in TOK} \cup {<< "set", i, l >> : i \in 1..3, l \in Lists}
       \cup {<< "take", i >> : i \in 1..3}
       \cup {<< "hq", 258, 1 >>, << "hr", 772, 2 >>, << "hp", 1286, 2 >>, << "hx", 9, << 0, 0, 0, 1, 0, 0, 1, 0, 0, 2 >> >>}
       \cup {<< "hw", 10, fl, << 0, 1, 0, 0, 0, 0, 0, 0 >> >> : fl \in {<< 1, 0, 0, 1, 0, 0, 0 >>, << 0, 2, 1, 1, 1, 1, 5 >>}}
       \cup {<< "hf", "aa", 1 >>, << "hf", "qr", 0 >>}
       \cup {<< "fl", "tc", 1 >>, << "fl", "rc", 3 >>, << "fl", "qr", 0 >>}
       \cup {<< "clone" >>, << "dup" >>, << "rt" >>, << "rz" >>}
Fits(q) == \A i \in 1..4 : Len(q.s[i]) <= MAXLEN
Inits == {<< "q", 1, 1, << >> >>, << "r", 2, 0, << >> >>, << "d", 0, 0, << >> >>}
         \cup {<< "w", 3, 0, l >> : l \in {l \in Lists : Len(l) <= MAXLEN}}
Init == \E i \in Inits : p = BInit(i) /\ last = << "init", i >> /\ ret = << >>
Next == \E o \in Ops : LET r == BApply(p, o) IN
          Fits(r.p) /\ p' = r.p /\ ret' = r.ret /\ last' = o
Spec == Init /\ [][Next]_vars

WireCounts(q) == IF COUNTS = "sections" THEN Lens(q) ELSE q.hc
CountsMatch == WireCounts(p) = Lens(p)

SecOf(o) == IF o[1] \in {"addq", "setq", "takeq", "qpush", "qpop", "qclear", "qins"} THEN 1
            ELSE IF o[1] \in {"add", "set", "take"} THEN o[2] + 1 ELSE 0
Isolated == [][/\ \A i \in 1..4 : i # SecOf(last') => p'.s[i] = p.s[i]
               /\ SecOf(last') # 0 => p'.id = p.id /\ p'.fl = p.fl]_vars
TakeAll == [][last'[1] \in {"take", "takeq"} => ret' = p.s[SecOf(last')] /\ p'.s[SecOf(last')] = << >>]_vars
InsertLast == [][last'[1] \in {"add", "addq", "qpush"} =>
                  LET i == SecOf(last') IN SubSeq(p'.s[i], 1, Len(p.s[i])) = p.s[i] /\ Len(p'.s[i]) = Len(p.s[i]) + 1]_vars

(* for generation: which counts of the header object are stale *)
Stale(q) == [i \in 1..4 |-> q.hc[i] # Len(q.s[i])]
GenView == << p.s, Stale(p) >>
Emit == GEN => PrintT("@@" \o ToJson(<< << p.s, Stale(p) >>, last', << p'.s, Stale(p') >> >>))
=============================================================================
