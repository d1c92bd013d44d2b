SPECIFICATION Spec
CONSTANT MaxOps = 20
CHECK_DEADLOCK FALSE
