SPECIFICATION Spec
CONSTANTS DESIGN = "touch"
          CALLERS = 1
          LEN = 2
          GEN = FALSE
INVARIANTS Alone Unchanged
CHECK_DEADLOCK FALSE
