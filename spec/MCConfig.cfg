SPECIFICATION Spec
CONSTANTS MaxOps = 4
          Show = FALSE
INVARIANTS Wellformed Frame ReadBack Again
CHECK_DEADLOCK FALSE
