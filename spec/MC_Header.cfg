SPECIFICATION Spec
CONSTANTS IDS = {0, 513, 65535}
          GEN = FALSE
INVARIANTS QueryClean WireExact Layout
PROPERTY Exact
CHECK_DEADLOCK FALSE
