SPECIFICATION Spec
CONSTANTS COVER = "nolen"
          STEPS = 2
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
