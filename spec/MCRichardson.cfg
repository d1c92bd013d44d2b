SPECIFICATION Spec
CONSTANTS Durations = {0, 1, 2, 3, 4, 5, 7, 8}
          MaxBad = 3
          Orders = {1, 2, 4}
          Show = FALSE
INVARIANTS Covers Samples Good Half Stops
CHECK_DEADLOCK FALSE
