INIT Init
NEXT GenNext
CONSTANTS ALPH = {0, 1, 2, 97, 192}
          N = 6
          GEN = TRUE
INVARIANTS Cases
CHECK_DEADLOCK FALSE
