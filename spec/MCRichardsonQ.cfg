SPECIFICATION Spec
CONSTANTS Durations = {0, 1, 2, 3, 5}
          MaxBad = 2
          Orders = {1, 4}
          Show = FALSE
INVARIANTS Covers Samples Good Half Stops
CHECK_DEADLOCK FALSE
