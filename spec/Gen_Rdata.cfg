INIT Init
NEXT GenNext
CONSTANTS DNSSEC = TRUE
          GEN = TRUE
INVARIANTS Cases
CHECK_DEADLOCK FALSE
