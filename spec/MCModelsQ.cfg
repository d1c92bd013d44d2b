SPECIFICATION Spec
CONSTANTS Speeds = {1, 2, 7, 16}
          Stick = 2
          Recoveries = {"0", "1/2", "3/4"}
          Depth = 0
          K = 2
          Show = FALSE
INVARIANTS TypeOK AtRest
PROPERTIES Rebound Stays ComesToRest
CHECK_DEADLOCK FALSE
