SPECIFICATION Spec
CONSTANT MaxOps = 24
CHECK_DEADLOCK FALSE
