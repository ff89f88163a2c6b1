SPECIFICATION Spec
CONSTANTS COVER = "dedupe"
          STEPS = 2
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
