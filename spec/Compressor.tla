----------------------------- MODULE Compressor -----------------------------
(* Writing names with compression (C03). The writer knows some suffixes that    *)
(* it wrote below MAXPTR and may point to any of them; a name it knows as a     *)
(* whole it has to point to. DESIGN selects the writer or a known-bad one:      *)
(*   wrap  offsets beyond the pointer range are recorded as well                *)
(*   text  suffixes are looked up by their concatenated text                    *)
(*   fold  suffixes are looked up regardless of case                            *)
(*   loose offsets are relative to the body                                     *)
EXTENDS Names, Json
CONSTANTS NAMES, COUNT, PADS, MAXPTR, DESIGN, GEN
VARIABLES out, known, done, plain, plan
vars == << out, known, done, plain, plan >>

Lower(l) == [i \in 1..Len(l) |-> IF l[i] \in 65..90 THEN l[i] + 32 ELSE l[i]]
Key(n) == CASE DESIGN = "text" -> << Cat(n) >>
            [] DESIGN = "fold" -> [i \in 1..Len(n) |-> Lower(n[i])]
            [] OTHER -> n
Base == IF DESIGN = "loose" THEN 12 ELSE 0
Suffix(n, i) == SubSeq(n, i, Len(n))
KnownAt(n) == {k.at : k \in {k \in known : k.n = Key(n)}}
Labels(n, i) == Cat([j \in 1..(i - 1) |-> << Len(n[j]) >> \o n[j]])
Ptr(o) == << 192 + ((o % MAXPTR) \div 256), (o % MAXPTR) % 256 >>
(* the name n is spelled up to label i - 1 and goes on with a pointer to at, or with zero *)
Record(n, i) ==
  {k \in {[n |-> Key(Suffix(n, j)), at |-> Len(out) + Len(Labels(n, j)) - Base] : j \in 1..(i - 1)} :
     DESIGN = "wrap" \/ k.at < MAXPTR}
Put(n, bytes, i) ==
  /\ out' = out \o bytes
  /\ done' = Append(done, [n |-> n, at |-> Len(out)])
  /\ plain' = plain + NameLen(n)
  /\ known' = known \cup Record(n, i)
Spell(n) == /\ n = << >> \/ KnownAt(n) = {}
            /\ Put(n, Labels(n, Len(n) + 1) \o << 0 >>, Len(n) + 1)
Point(n, i) == \E at \in KnownAt(Suffix(n, i)) :
            /\ i = 1 \/ KnownAt(n) = {}
            /\ Put(n, Labels(n, i) \o Ptr(at), i)
Write(n) == Len(done) < COUNT /\ (Spell(n) \/ \E i \in 1..Len(n) : Point(n, i)) /\ plan' = Append(plan, n)
Pad(k) == /\ Len(done) < COUNT /\ Len(out) < 12 + 12 /\ (IF done = << >> THEN Len(out) = 12 ELSE TRUE)
          /\ out' = out \o Zeros(k) /\ plain' = plain + k /\ plan' = Append(plan, k) /\ UNCHANGED << known, done >>
Init == out = Zeros(12) /\ known = {} /\ done = << >> /\ plain = 12 /\ plan = << >>
Next == \/ \E n \in NAMES : Write(n)
        \/ \E k \in PADS : Pad(k)
Spec == Init /\ [][Next]_vars
NoPlan == << out, known, done, plain >>

(* every name written is found again, through earlier offsets only *)
Decodes == \A i \in 1..Len(done) : LET r == Resolve(out, Len(out), done[i].at) IN r.st = "done" /\ r.lab = done[i].n
NotLonger == Len(out) <= plain
(* a name written before below MAXPTR is not spelled again *)
Once == \A i, j \in 1..Len(done) : i < j /\ done[i].n = done[j].n /\ done[i].n # << >> /\ done[i].at + NameLen(done[i].n) < MAXPTR
            => out[done[j].at + 1] >= 192
(* what is known can be found *)
KnownOk == DESIGN = "std" => \A k \in known : k.at < MAXPTR /\ Resolve(out, Len(out), k.at).lab = k.n

A == << 97 >>
B == << 98 >>
C == << 99 >>
Names1 == {<< >>, << A >>, << A, B >>, << B, A >>, << << 97, 98 >> >>, << B >>, << << 65 >>, B >>, << C, A, B >>}
Names2 == {<< >>, << A, B, C >>, << << 97, 98 >>, C >>, << A, << 98, 99 >> >>, << B, C >>, << << 66 >>, C >>, << C, B >>, << A, B, C, A >>, << << 97, 46, 98 >>, C >>}
Emit == GEN => (Len(done) = COUNT => PrintT("@@" \o ToJson(plan)))
GenSpell == Init /\ [][\E n \in NAMES : Len(done) < COUNT /\ done' = Append(done, [n |-> n, at |-> 0]) /\ plan' = Append(plan, n) /\ UNCHANGED << out, known, plain >>]_vars
=============================================================================
