SPECIFICATION Spec
CONSTANTS Kinds <- FewKinds
          Walls <- FewWalls
          Hs <- One
          MaxCalls = 4
          Props <- Everything
VIEW View
INVARIANTS Allowed OnTheTrueMotion SwitchedOnce TimeNeverBack StepSizePositive Forgotten
PROPERTIES AgainWithTheNewStep RejectedStays
CHECK_DEADLOCK FALSE
