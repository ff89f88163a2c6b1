SPECIFICATION Spec
CONSTANTS UNIV = {1, 2, 6, 15, 16, 28, 43, 47, 64, 249, 250, 256, 257}
          GEN = FALSE
INVARIANTS Exact Minimal CutNoticed TooLong OtherForms
CHECK_DEADLOCK FALSE
