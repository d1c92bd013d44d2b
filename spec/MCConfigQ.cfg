SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Show = FALSE
INVARIANTS Wellformed Frame ReadBack Again
CHECK_DEADLOCK FALSE
