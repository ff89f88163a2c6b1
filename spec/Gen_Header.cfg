SPECIFICATION Spec
CONSTANTS IDS = {0}
          GEN = TRUE
INVARIANTS GenInv
CHECK_DEADLOCK FALSE
