SPECIFICATION Spec
CONSTANTS Size = 4
          MaxOps = 0
INVARIANTS WrittenIsRead NothingElse SizeKept Commute Flat Norms
CHECK_DEADLOCK FALSE
