SPECIFICATION Spec
CONSTANTS DESIGN = "text"
          GEN = FALSE
INVARIANTS Distinguishes Reflexive Symmetric
CHECK_DEADLOCK FALSE
