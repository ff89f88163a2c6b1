SPECIFICATION Spec
CONSTANTS TOK = {0, 1}
          MAXLEN = 1
          GEN = TRUE
          COUNTS = "sections"
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
