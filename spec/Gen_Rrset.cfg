INIT Init
NEXT GenNext
CONSTANTS DATA <- Data1
          SIZE = 3
          GEN = TRUE
INVARIANTS Cases
CHECK_DEADLOCK FALSE
