SPECIFICATION Spec
CONSTANTS DESIGN = "own"
          CALLERS = 2
          LEN = 3
          GEN = FALSE
INVARIANTS Alone Unchanged
CHECK_DEADLOCK FALSE
