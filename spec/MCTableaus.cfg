SPECIFICATION Spec
CONSTANT MaxOrder = 8
INVARIANTS TreeCount OrderReached OrderExact
CHECK_DEADLOCK FALSE
