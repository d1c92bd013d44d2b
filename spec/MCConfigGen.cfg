SPECIFICATION Spec
CONSTANTS MaxOps = 2
          Show = TRUE
INVARIANTS Wellformed Frame ReadBack Again
CHECK_DEADLOCK FALSE
