SPECIFICATION Spec
CONSTANTS BUF <- Buf1
          DEPTH = 3
          GEN = FALSE
INVARIANTS InBounds Nested
PROPERTIES ReadsExact PeekStays SubStays PopRestores
CHECK_DEADLOCK FALSE
VIEW View
