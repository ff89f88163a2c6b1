SPECIFICATION GenSpec
CONSTANTS DESIGN = "own"
          CALLERS = 2
          LEN = 3
          GEN = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
