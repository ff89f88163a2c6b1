SPECIFICATION Spec
CONSTANTS DESIGN = "shared"
          CALLERS = 2
          LEN = 2
          GEN = FALSE
INVARIANTS Alone Unchanged
CHECK_DEADLOCK FALSE
