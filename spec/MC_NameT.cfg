SPECIFICATION Spec
CONSTANTS ALPH = {0, 1, 2, 3, 97, 192}
          N = 6
          GEN = FALSE
INVARIANTS Exact Sound Bounded
PROPERTIES Progress
CHECK_DEADLOCK FALSE
