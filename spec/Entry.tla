------------------------------- MODULE Entry -------------------------------
(* Histories of edits of one entry (C22). w is what its serialisation would   *)
(* give; CACHE names a known-bad design in which it is kept and not renewed    *)
(* by every edit.                                                              *)
EXTENDS EntryOps, Json
CONSTANTS CACHE, GEN
VARIABLES e, w, last
vars == << e, w, last >>

a == << 97 >>
b == << 98 >>
Names3 == {<< >>, << a >>, << b, a >>}
DatasE == {[t |-> 1, f |-> << << 1, 2, 3, 4 >> >>], [t |-> 1, f |-> << << 5, 6, 7, 8 >> >>],
           [t |-> 12, f |-> << << a >> >>], [t |-> 12, f |-> << << >> >>], [t |-> 16, f |-> << << << 120 >> >> >>]}
Ttls == {<< 0, 0, 0, 0 >>, << 128, 0, 0, 1 >>}
OpsQ == {<< "n", n >> : n \in Names3} \cup {<< "t", t >> : t \in {1, 255}} \cup {<< "c", c >> : c \in {1, 254}}
        \cup {<< "u", 0 >>, << "u", 1 >>, << "clone" >>, << "rt" >>, << "app", b >>, << "lab", 0, b >>, << "lab", 0, a >>, << "lab", 1, a >>}
OpsR == {<< "n", n >> : n \in Names3} \cup {<< "t", t >> : t \in {1, 12, 16}} \cup {<< "c", c >> : c \in {1, 512}}
        \cup {<< "u", 0 >>, << "u", 1 >>, << "clone" >>, << "rt" >>, << "app", b >>, << "lab", 0, b >>, << "lab", 1, a >>}
        \cup {<< "ttl", v >> : v \in Ttls} \cup {<< "d", d >> : d \in DatasE} \cup {<< "dm", d >> : d \in DatasE}
        \cup {<< "im", d >> : d \in {d \in DatasE : d.t # 16}}
Starts == {[k |-> "q", n |-> << a >>, t |-> 1, c |-> 1, u |-> 0],
           [k |-> "r", n |-> << a >>, t |-> 1, c |-> 1, u |-> 0, ttl |-> << 0, 0, 0, 0 >>, d |-> [t |-> 1, f |-> << << 1, 2, 3, 4 >> >>]]}
Init == e \in Starts /\ w = EWire(e) /\ last = << "init" >>
Next == \E o \in (IF IsRec(e) THEN OpsR ELSE OpsQ) :
          /\ o[1] = "rt" => (IF IsRec(e) THEN e.t = e.d.t ELSE TRUE)
          /\ o[1] = "app" => Len(e.n) < 2
          /\ e' = EApply(e, o)
          /\ last' = o
          /\ w' = IF CACHE = o[1] THEN w ELSE EWire(e')
Spec == Init /\ [][Next]_vars

Fresh == w = EWire(e)
(* an edit changes the part it names and nothing else *)
Frame == [][\A x \in DOMAIN e : x # EPart(last') => e'[x] = e[x]]_vars
Sets == [][last'[1] \in {"n", "t", "c", "u", "ttl", "d", "dm"} => e'[EPart(last')] = last'[2]]_vars
(* what is read from the serialisation is the entry *)
Cf == [m |-> TRUE, d |-> TRUE]
Msg(x) == Header(EPacket(x)) \o EWire(x) \o EWire(x)
ReadsBack == IsRec(e) => (e.t = e.d.t => LET m == ReadMsg(Msg(e), Cf) IN m.st = "ok" /\ RDifs(e, m.an[1]) = {} /\ RDifs(e, m.an[2]) = {})
ReadsBackQ == ~IsRec(e) => LET m == ReadMsg(Msg(e), Cf) IN m.st = "ok" /\ QDifs(e, m.qd[1]) = {} /\ QDifs(e, m.qd[2]) = {}

View == << e, w >>
Emit == GEN => PrintT("@@" \o ToJson(<< e, last', e' >>))
=============================================================================
