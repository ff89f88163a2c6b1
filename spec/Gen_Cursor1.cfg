SPECIFICATION Spec
CONSTANTS BUF <- Buf1
          DEPTH = 2
          GEN = TRUE
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
VIEW View
