SPECIFICATION Spec
CONSTANTS LABELS <- Ls
          MAXL = 3
          GEN = FALSE
INVARIANTS TextBack TextSame SizeIs WireBack Order Trans Root
CHECK_DEADLOCK FALSE
