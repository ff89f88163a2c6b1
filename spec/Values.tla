------------------------------- MODULE Values -------------------------------
(* Small record data values of every type, derived from the schema.           *)
EXTENDS Message

VNames == {<< >>, << << 97 >>, << 66, 0 >> >>}
VFix(n) == {[i \in 1..n |-> i], [i \in 1..n |-> 256 - i]}
VRest == {<< >>, << 0, 200 >>}
VCode(n, tab, cf) ==
  LET all == CASE tab = "rtype" -> {1, 257} [] tab = "dsalg" -> {1, 254} [] tab = "digest" -> {1, 5} [] tab = "sshalg" -> {0, 5}
               [] tab = "fptype" -> {0, 1} [] tab = "ident" -> {0, 2} [] tab = "tlsause" -> {0, 3} [] tab = "tlsasel" -> {0, 1}
               [] tab = "tlsamat" -> {0, 2} [] tab = "csync" -> 0..3 [] tab = "tkmode" -> {1, 65534} [] tab = "tkerr" -> {0, 21}
               [] tab = "tserr" -> {0, 22}
  IN {IF n = 1 THEN << x >> ELSE W16(x) : x \in all}
K2(a) == W16(a)
VParams == {<< >>,
            << << K2(1), << << 104 >> >> >>, << K2(0), << K2(1), K2(4) >> >>, << K2(4), << << 1, 2, 3, 4 >> >> >> >>,
            << << K2(65280), << << >> >> >>, << K2(3), << << 1, 187 >> >> >>, << K2(2), << >> >> >>,
            << << K2(5), << << 9 >> >> >>, << K2(6), << [i \in 1..16 |-> i] >> >>, << K2(65534), << << 0, 1, 2 >> >> >> >>}
VOpts == {<< >>, << << K2(3), << >> >> >>, << << K2(10), << 1, 2 >> >>, << K2(65535), << 0 >> >> >>}
(* sets of field tuples per schema entry *)
VField(fd, cf) ==
  CASE fd.k = "fix" -> {<< v >> : v \in VFix(fd.n)}
    [] fd.k = "code" -> {<< v >> : v \in VCode(fd.n, fd.tab, cf)}
    [] fd.k = "name" -> {<< v >> : v \in VNames}
    [] fd.k \in {"cs", "rest"} -> {<< v >> : v \in VRest}
    [] fd.k = "rest1" -> {<< << 7 >> >>, << << 0, 255, 1 >> >>}
    [] fd.k = "csu" -> {<< << >> >>, << << 195, 169 >> >>}
    [] fd.k = "csf" -> {<< << >> >>, << << 83, 85 >> >>}
    [] fd.k = "l16" -> {<< << >> >>, << << 1, 0 >> >>}
    [] fd.k = "strs" -> {<< << << >> >> >>, << << << 97 >>, << >>, << 195, 169 >> >> >>}
    [] fd.k = "bitmap" -> {<< << >> >>, << << 1, 15 >> >>, << << 2, 256, 257 >> >>, << << 64, 250 >> >>}
    [] fd.k = "opts" -> {<< v >> : v \in VOpts}
    [] fd.k = "params" -> {<< v >> : v \in VParams}
    [] fd.k = "sha256" -> {<< >>}
    [] fd.k = "caaf" -> {<< << 0 >> >>, << << 1 >> >>}
    [] fd.k = "tag" -> {<< << 97 >> >>, << << 105, 115, 57 >> >>}
    [] fd.k = "keyf" -> {<< << 0 >>, << 1 >> >>, << << 1 >>, << 0 >> >>}
    [] fd.k = "ipsec" -> {<< << 9 >>, << 1 >>, << 2 >>, << 1, 2, 3, 4 >>, << >>, << 5 >> >>,
                          << << 255 >>, << 2 >>, << 0 >>, [i \in 1..16 |-> i], << >>, << >> >>,
                          << << 0 >>, << 3 >>, << 5 >>, << >>, << << 97 >> >>, << 0, 1 >> >>}
    [] fd.k = "hip" -> {<< << 2 >>, << 1, 2 >>, << 3 >>, << >> >>, << << 5 >>, << >>, << >>, << << << 97 >> >>, << >> >> >>,
                        << << 0 >>, << 255 >>, [i \in 1..300 |-> i % 256], << << << 98 >>, << 97 >> >> >> >>}
    [] fd.k = "apl" -> {<< << 0, 1 >>, << 24 >>, << 0 >>, << 10, 0, 1, 0 >> >>, << << 0, 1 >>, << 0 >>, << 1 >>, << 0, 0, 0, 0 >> >>,
                        << << 0, 2 >>, << 128 >>, << 1 >>, [i \in 1..16 |-> i] >>}
RECURSIVE VTuples(_, _, _)
VTuples(sch, i, cf) == IF i > Len(sch) THEN {<< >>}
                       ELSE {a \o b : a \in VField(sch[i], cf), b \in VTuples(sch, i + 1, cf)}
Values(t, cf) == VTuples(Schema(t), 1, cf)
=============================================================================
