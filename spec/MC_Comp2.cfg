SPECIFICATION Spec
CONSTANTS NAMES <- Names2
          COUNT = 3
          PADS = {}
          MAXPTR = 16384
          DESIGN = "std"
          GEN = FALSE
INVARIANTS Decodes NotLonger Once KnownOk
VIEW NoPlan
CHECK_DEADLOCK FALSE
