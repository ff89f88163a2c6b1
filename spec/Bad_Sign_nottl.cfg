SPECIFICATION Spec
CONSTANTS COVER = "nottl"
          STEPS = 2
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
