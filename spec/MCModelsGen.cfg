SPECIFICATION Spec
CONSTANTS Speeds = {1, 2, 7}
          Stick = 2
          Recoveries = {"0", "1/2", "1"}
          Depth = 7
          K = 0
          Show = TRUE
INVARIANTS TypeOK AtRest
CHECK_DEADLOCK FALSE
