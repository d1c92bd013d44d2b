SPECIFICATION Spec
CONSTANTS Levels = {"nan", "0", "3", "4", "5", "7"}
          MaxTrials = 4
          Show = FALSE
INVARIANTS Turns Stops Ends Best Bounded
CHECK_DEADLOCK FALSE
