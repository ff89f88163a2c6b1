SPECIFICATION Spec
CONSTANTS TOK = {0, 1}
          MAXLEN = 2
          GEN = FALSE
          COUNTS = "sections"
INVARIANTS CountsMatch
PROPERTIES Isolated TakeAll InsertLast
VIEW GenView
CHECK_DEADLOCK FALSE
