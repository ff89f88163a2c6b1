----------------------------- MODULE NameReader -----------------------------
(* Reading a name from every position of every small buffer (C06, C01).        *)
EXTENDS Names, Json
CONSTANTS ALPH, N, GEN
VARIABLES b, s, from
vars == << b, s, from >>
Bufs == [1..N -> ALPH]
Init == b \in Bufs /\ from \in 0..(N - 1) /\ s = NInit(from)
Next == s.st = "run" /\ s' = NStep(b, N, s) /\ UNCHANGED << b, from >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- the same thing said without a machine ---------------------------------- *)
RECURSIVE Run(_, _)
(* end of the run of labels that starts at p: offset of its zero or pointer, N: none *)
Run(x, p) == IF p >= N THEN N ELSE IF x[p + 1] = 0 \/ x[p + 1] >= 192 THEN p ELSE Run(x, p + 1 + x[p + 1])
RECURSIVE RunLabels(_, _, _)
RunLabels(x, p, e) == IF p >= e THEN << >> ELSE << Cut(x, p + 1, x[p + 1]) >> \o RunLabels(x, p + 1 + x[p + 1], e)
No == << << -1 >> >>
RECURSIVE Means(_, _)
Means(x, p) ==
  LET e == Run(x, p) IN
  IF e >= N THEN No
  ELSE IF x[e + 1] = 0 THEN RunLabels(x, p, e)
  ELSE IF e + 1 >= N THEN No
  ELSE LET t == (x[e + 1] - 192) * 256 + x[e + 2] IN
       IF t >= p THEN No
       ELSE LET r == Means(x, t) IN IF r = No THEN No ELSE RunLabels(x, p, e) \o r
Size(n) == FoldLeft(LAMBDA a, l : a + 1 + Len(l), 1, n)
Behind(x, p) == LET e == Run(x, p) IN IF x[e + 1] = 0 THEN e + 1 ELSE e + 2

Exact == s.st = "done" => s.lab = Means(b, from) /\ s.nxt = Behind(b, from) /\ s.len = Size(s.lab)
Sound == s.st = "rej" => Means(b, from) = No \/ Size(Means(b, from)) > MaxName
Bounded == s.len <= MaxName /\ Len(s.lab) < MaxName /\ s.pos <= N /\ (s.nxt # -1 => from < s.nxt /\ s.nxt <= N)
(* every step comes closer to the end *)
Progress == [][s'.lim < s.lim \/ (s'.lim = s.lim /\ s'.pos > s.pos) \/ s'.st # "run"]_vars
Ends == <>(s.st # "run")

Cases == GEN => (from = 0 /\ s = NInit(0) =>
           PrintT("@@" \o ToJson([k |-> "name", g |-> "", c |-> [b |-> b, s |-> [i \in 1..N |-> i - 1]]])))
GenNext == UNCHANGED vars
Small == 4
=============================================================================
