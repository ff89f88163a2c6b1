SPECIFICATION Spec
CONSTANTS DESIGN = "dirty"
          CALLERS = 1
          LEN = 2
          GEN = FALSE
INVARIANTS Alone Unchanged
CHECK_DEADLOCK FALSE
