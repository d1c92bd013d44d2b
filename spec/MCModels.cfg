SPECIFICATION Spec
CONSTANTS Speeds = {0, 1, 2, 3, 5, 7, 16, 100, 1000}
          Stick = 2
          Recoveries = {"0", "1/3", "1/2", "3/4", "9/10"}
          Depth = 0
          K = 5
          Show = FALSE
INVARIANTS TypeOK AtRest
PROPERTIES Rebound Stays ComesToRest
CHECK_DEADLOCK FALSE
