SPECIFICATION Spec
CONSTANTS DESIGN = "ttl"
          GEN = FALSE
INVARIANTS Distinguishes Reflexive Symmetric
CHECK_DEADLOCK FALSE
