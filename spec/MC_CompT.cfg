SPECIFICATION Spec
CONSTANTS NAMES <- Names1
          COUNT = 4
          PADS = {3}
          MAXPTR = 22
          DESIGN = "std"
          GEN = FALSE
INVARIANTS Decodes NotLonger Once KnownOk
VIEW NoPlan
CHECK_DEADLOCK FALSE
