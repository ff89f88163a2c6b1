SPECIFICATION Spec
CONSTANTS MAXP = 4
          GEN = FALSE
INVARIANTS SameParams AnyOrder Increasing SameOpts LengthsMatter OLengthsMatter
CHECK_DEADLOCK FALSE
