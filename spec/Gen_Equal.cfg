SPECIFICATION Spec
CONSTANTS DESIGN = "parts"
          GEN = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
