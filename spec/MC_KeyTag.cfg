SPECIFICATION Spec
CONSTANTS ALPH = {0, 1, 2, 128, 255}
          N = 7
          GEN = FALSE
INVARIANTS Agrees Parity
CHECK_DEADLOCK FALSE
