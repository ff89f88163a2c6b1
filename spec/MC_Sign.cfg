SPECIFICATION Spec
CONSTANTS COVER = "all"
          STEPS = 3
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
