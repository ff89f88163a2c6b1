SPECIFICATION Spec
CONSTANTS COVER = "unsorted"
          STEPS = 2
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
