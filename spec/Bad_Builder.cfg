SPECIFICATION Spec
CONSTANTS TOK = {0, 1}
          MAXLEN = 2
          GEN = FALSE
          COUNTS = "header"
INVARIANTS CountsMatch
PROPERTIES Isolated TakeAll InsertLast
VIEW GenView
CHECK_DEADLOCK FALSE
