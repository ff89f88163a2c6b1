SPECIFICATION Spec
CONSTANTS RICH = FALSE
          SIZE = 2
INVARIANTS Same CutRejected MoreRejected Announced Entries InMessage Whole WalkAccepts WalkRejects Shorter
PROPERTIES Progress
CHECK_DEADLOCK FALSE
