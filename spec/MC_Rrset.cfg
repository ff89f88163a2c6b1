SPECIFICATION Spec
CONSTANTS DATA <- Data1
          SIZE = 4
          GEN = FALSE
INVARIANTS OrderFree Sorted Kept Readable
CHECK_DEADLOCK FALSE
