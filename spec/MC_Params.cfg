SPECIFICATION Spec
CONSTANTS MAXP = 3
          GEN = FALSE
INVARIANTS SameParams AnyOrder Increasing SameOpts LengthsMatter OLengthsMatter
CHECK_DEADLOCK FALSE
