SPECIFICATION Spec
CONSTANTS ALPH = {0, 1, 2, 192}
          N = 5
          GEN = FALSE
          MaxName <- Small
INVARIANTS Exact Sound Bounded
PROPERTIES Progress Ends
CHECK_DEADLOCK FALSE
