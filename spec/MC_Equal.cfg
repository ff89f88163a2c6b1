SPECIFICATION Spec
CONSTANTS DESIGN = "parts"
          GEN = FALSE
INVARIANTS Distinguishes Reflexive Symmetric
CHECK_DEADLOCK FALSE
