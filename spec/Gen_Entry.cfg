SPECIFICATION Spec
CONSTANTS CACHE = "none"
          GEN = TRUE
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
