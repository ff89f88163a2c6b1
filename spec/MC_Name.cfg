SPECIFICATION Spec
CONSTANTS ALPH = {0, 1, 2, 97, 192}
          N = 5
          GEN = FALSE
INVARIANTS Exact Sound Bounded
PROPERTIES Progress
CHECK_DEADLOCK FALSE
