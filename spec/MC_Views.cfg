SPECIFICATION Spec
CONSTANTS ALPH = {0, 1, 62, 63, 127, 251, 255}
          N = 5
          TXT = {46, 48, 49, 58, 102}
          M = 7
INVARIANTS Faithful Address Texts Bits
PROPERTIES Independent
CHECK_DEADLOCK FALSE
