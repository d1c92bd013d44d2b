SPECIFICATION Spec
CONSTANTS Length = 5
CHECK_DEADLOCK FALSE
