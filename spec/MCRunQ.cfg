SPECIFICATION Spec
CONSTANTS Timings = {0, 1, 2, 3}
          Durations = {0, 3, 4}
          Hs = {1, 2}
          Maxes = {0, 1, 2, 3}
          MaxRej = 1
          Runs = 1
          Odd = TRUE
          Show = FALSE
INVARIANTS Reaches Advances SolutionRecords ColumnRecords LogRecords TotalsRight Sound Starts
PROPERTIES Goes
CHECK_DEADLOCK FALSE
