SPECIFICATION Spec
CONSTANTS DESIGN = "bit"
          GEN = FALSE
INVARIANTS Distinguishes Reflexive Symmetric
CHECK_DEADLOCK FALSE
