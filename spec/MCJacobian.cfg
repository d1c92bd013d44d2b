SPECIFICATION Spec
CONSTANTS Rows = 3
          Cols = 4
          MaxOps = 6
INVARIANTS AllFacts Right Diag
PROPERTIES ResetForgets
CHECK_DEADLOCK FALSE
