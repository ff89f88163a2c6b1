SPECIFICATION Spec
CONSTANTS CACHE = "dm"
          GEN = FALSE
INVARIANTS Fresh ReadsBack ReadsBackQ
PROPERTIES Frame Sets
VIEW View
CHECK_DEADLOCK FALSE
