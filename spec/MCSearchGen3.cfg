SPECIFICATION Spec
CONSTANTS Levels = {"nan", "0", "3", "4", "5", "7"}
          MaxTrials = 3
          Show = TRUE
INVARIANTS Turns Stops Ends Best Bounded
CHECK_DEADLOCK FALSE
