SPECIFICATION Spec
CONSTANTS DESIGN = "order"
          GEN = FALSE
INVARIANTS Distinguishes Reflexive Symmetric
CHECK_DEADLOCK FALSE
