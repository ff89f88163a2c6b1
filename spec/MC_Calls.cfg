SPECIFICATION Spec
CONSTANTS DESIGN = "own"
          CALLERS = 2
          LEN = 2
          GEN = FALSE
INVARIANTS Alone Unchanged
PROPERTIES Returns
CHECK_DEADLOCK FALSE
