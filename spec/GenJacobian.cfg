SPECIFICATION Spec
CONSTANTS Length = 4
CHECK_DEADLOCK FALSE
