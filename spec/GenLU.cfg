SPECIFICATION Spec
CONSTANT MaxOps = 16
CHECK_DEADLOCK FALSE
