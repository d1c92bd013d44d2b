SPECIFICATION Spec
CONSTANTS Durations = {0, 3, 5}
          MaxBad = 2
          Orders = {1, 3}
          Show = TRUE
INVARIANTS Covers Samples Good Half Stops
CHECK_DEADLOCK FALSE
