SPECIFICATION Spec
CONSTANTS TABS <- All
          D = TRUE
INVARIANTS Fixed Alone Named Widens
CHECK_DEADLOCK FALSE
