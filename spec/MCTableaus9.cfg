SPECIFICATION Spec
CONSTANT MaxOrder = 9
INVARIANTS TreeCount OrderReached OrderExact
CHECK_DEADLOCK FALSE
