SPECIFICATION Spec
CONSTANTS DESIGN = "fold"
          GEN = FALSE
INVARIANTS Distinguishes Reflexive Symmetric
CHECK_DEADLOCK FALSE
