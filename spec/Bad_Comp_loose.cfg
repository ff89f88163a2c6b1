SPECIFICATION Spec
CONSTANTS NAMES <- Names1
          COUNT = 3
          PADS = {2}
          MAXPTR = 22
          DESIGN = "loose"
          GEN = FALSE
INVARIANTS Decodes NotLonger Once KnownOk
VIEW NoPlan
CHECK_DEADLOCK FALSE
