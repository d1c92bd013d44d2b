SPECIFICATION Spec
CONSTANTS Kinds <- AllKinds
          Walls <- AllWalls
          Hs <- Half
          MaxCalls = 5
          Props <- Everything
VIEW View
INVARIANTS Allowed OnTheTrueMotion SwitchedOnce TimeNeverBack StepSizePositive Forgotten
PROPERTIES AgainWithTheNewStep RejectedStays
CHECK_DEADLOCK FALSE
