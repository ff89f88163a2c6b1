------------------------------- MODULE Codes -------------------------------
(* The numbers the library supports, per kind of code. cf = [m, d] are the  *)
(* mdns and dnssec features.                                                *)
EXTENDS Bytes

BaseTypes == {1, 2, 5, 6, 10, 11, 12, 13, 14, 15, 16, 28, 29, 33, 35, 41, 42, 44, 45, 49, 52, 55,
              61, 62, 64, 108, 109, 249, 250, 256, 257}
DnssecTypes == {43, 46, 47, 48, 59, 60}
RTypes(cf) == IF cf.d THEN BaseTypes \cup DnssecTypes ELSE BaseTypes
QTypes(cf) == RTypes(cf) \cup {252, 253, 254, 255}
QClasses == {1, 2, 3, 4, 254, 255}
Rcodes == 0..10
OpGet(raw) == IF raw <= 2 THEN raw ELSE 3

Range16(n) == 0 <= n /\ n <= 65535
(* Member(tab, n, cf): is n a supported code of that kind? *)
Member(tab, n, cf) ==
  CASE tab = "rtype" -> n \in RTypes(cf)
    [] tab = "qtype" -> n \in QTypes(cf)
    [] tab = "qclass" -> (n % 32768) \in QClasses
    [] tab = "rclass" -> TRUE
    [] tab = "opcode" -> TRUE
    [] tab = "rcode" -> n \in Rcodes
    [] tab = "sshalg" -> n \in 0..5
    [] tab = "fptype" -> n \in 0..1
    [] tab = "ident" -> n \in 0..2
    [] tab = "naptr" -> n \in {83, 65, 85, 80}
    [] tab = "tkmode" -> n >= 1 /\ n <= 65534
    [] tab = "tkerr" -> n <= 21
    [] tab = "tserr" -> n \in {0, 16, 17, 18, 22}
    [] tab = "tlsause" -> n \in 0..3
    [] tab = "tlsasel" -> n \in 0..1
    [] tab = "tlsamat" -> n \in 0..2
    [] tab = "svckey" -> n <= 6 \/ n >= 65280
    [] tab = "csync" -> n <= 3
    [] tab = "gw" -> n <= 3
    [] tab = "aplfam" -> n \in {1, 2}
    [] tab = "dhdig" -> n = 1
    [] tab = "dsalg" -> n \in {1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254}
    [] tab = "digest" -> n \in {1, 2, 4, 5}

(* The number a supported code stands for. *)
Canon(tab, n) == IF tab \in {"qclass", "rclass"} THEN n % 32768
                 ELSE IF tab = "opcode" THEN OpGet(n) ELSE n

(* Error kinds; the TSIG error codes are reported like the TKEY ones. *)
ErrKinds(tab) ==
  CASE tab = "rtype" -> {"InvalidType"}
    [] tab = "qtype" -> {"InvalidType"}
    [] tab = "qclass" -> {"InvalidClass"}
    [] tab = "rcode" -> {"InvalidResponseCode"}
    [] tab = "sshalg" -> {"InvalidSSHFPAlgorithm"}
    [] tab = "fptype" -> {"InvalidSSHFPFingerprintType"}
    [] tab = "ident" -> {"InvalidIdentifierTypeError"}
    [] tab = "naptr" -> {"InvalidNaptrFlag"}
    [] tab = "tkmode" -> {"InvalidTkeyMode"}
    [] tab \in {"tkerr", "tserr"} -> {"InvalidTkeyError", "InvalidTsigError"}
    [] tab = "tlsause" -> {"InvalidTLSACertUsage"}
    [] tab = "tlsasel" -> {"InvalidTLSASelector"}
    [] tab = "tlsamat" -> {"InvalidTLSAMatchingType"}
    [] tab = "svckey" -> {"InvalidSvcbParam"}
    [] tab = "csync" -> {"InvalidCsyncFlag"}
    [] tab = "gw" -> {"InvalidIpSecKeyGatewayType"}
    [] tab = "aplfam" -> {"InvalidAplFamily"}
    [] tab = "dhdig" -> {"InvalidDigestType"}
    [] tab = "dsalg" -> {"InvalidDnsSecAlgorithm"}
    [] tab = "digest" -> {"InvalidDigestType"}
    [] OTHER -> {}
=============================================================================
