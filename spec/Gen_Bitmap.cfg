SPECIFICATION Spec
CONSTANTS UNIV = {1, 15, 16, 28, 64, 249, 250, 256, 257}
          GEN = TRUE
INVARIANTS Cases
CHECK_DEADLOCK FALSE
