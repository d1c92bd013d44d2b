SPECIFICATION Spec
CONSTANTS Rows = 3
          Cols = 3
          MaxOps = 4
INVARIANTS AllFacts Right Diag
PROPERTIES ResetForgets
CHECK_DEADLOCK FALSE
