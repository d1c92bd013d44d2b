SPECIFICATION Spec
CONSTANTS MaxOps = 8
          Show = TRUE
INVARIANTS Wellformed Frame ReadBack Again
CHECK_DEADLOCK FALSE
