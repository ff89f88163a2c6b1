SPECIFICATION Spec
CONSTANTS DNSSEC = TRUE
          GEN = FALSE
INVARIANTS OwnForm Confined CutNoticed FixedSize LongNoticed Bytes8
CHECK_DEADLOCK FALSE
