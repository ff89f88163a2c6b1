SPECIFICATION GenSpell
CONSTANTS NAMES <- Names2
          COUNT = 4
          PADS = {}
          MAXPTR = 16384
          DESIGN = "std"
          GEN = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
