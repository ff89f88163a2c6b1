SPECIFICATION Spec
CONSTANTS LABELS <- Ls2
          MAXL = 2
          GEN = TRUE
INVARIANTS Cases
CHECK_DEADLOCK FALSE
