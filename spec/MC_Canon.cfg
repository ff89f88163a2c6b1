SPECIFICATION Spec
CONSTANTS TYPES = {2, 5, 6, 12, 14, 15, 33, 35, 46, 47, 64}
          OWNERS <- Owners1
INVARIANTS OwnerFree MemberFree Sizes Members
CHECK_DEADLOCK FALSE
