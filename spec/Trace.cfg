SPECIFICATION Spec
POSTCONDITION AllSeen
CHECK_DEADLOCK FALSE
