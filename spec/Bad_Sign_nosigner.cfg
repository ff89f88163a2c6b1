SPECIFICATION Spec
CONSTANTS COVER = "nosigner"
          STEPS = 2
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
