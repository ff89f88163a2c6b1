----------------------------- MODULE CodeTables -----------------------------
(* Code tables: each number of a table on its own (C13).                      *)
EXTENDS Codes
CONSTANTS TABS, D
VARIABLES tab, x
vars == << tab, x >>
cf == [m |-> TRUE, d |-> D]
Nums(t) == IF t \in {"opcode", "rcode", "sshalg", "fptype", "naptr", "tlsause", "tlsasel", "tlsamat", "gw", "dhdig", "dsalg", "digest"}
           THEN 0..255 ELSE (0..600) \cup (32760..33100) \cup (65270..65535)
Init == tab \in TABS /\ x = 0
Next == /\ \/ x + 1 \in Nums(tab) /\ x' = x + 1
           \/ x = 600 /\ 32760 \in Nums(tab) /\ x' = 32760
           \/ x = 33100 /\ x' = 65270
        /\ UNCHANGED tab
Spec == Init /\ [][Next]_vars
(* a named value stands for one number, which is a member itself *)
Fixed == Member(tab, x, cf) => Member(tab, Canon(tab, x), cf) /\ Canon(tab, Canon(tab, x)) = Canon(tab, x)
Alone == Member(tab, x, cf) /\ tab \notin {"qclass", "rclass", "opcode"} => Canon(tab, x) = x
Named == ~Member(tab, x, cf) => ErrKinds(tab) # {}
Widens == tab = "qtype" => (x \in RTypes(cf) => Member("qtype", x, cf))
All == {"rtype", "qtype", "qclass", "rclass", "opcode", "rcode", "sshalg", "fptype", "ident", "naptr", "tkmode", "tkerr", "tserr", "tlsause",
        "tlsasel", "tlsamat", "svckey", "csync", "gw", "aplfam", "dhdig", "dsalg", "digest"}
=============================================================================
