SPECIFICATION Spec
CONSTANTS MAXP = 3
          GEN = TRUE
INVARIANTS Cases
CHECK_DEADLOCK FALSE
