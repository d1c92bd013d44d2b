SPECIFICATION Spec
CONSTANTS Timings = {0, 2}
          Durations = {0, 2}
          Hs = {1, 2}
          Maxes = {2}
          MaxRej = 1
          Runs = 2
          Odd = TRUE
          Show = FALSE
INVARIANTS Reaches Advances SolutionRecords ColumnRecords LogRecords TotalsRight Sound Starts
PROPERTIES Goes
CHECK_DEADLOCK FALSE
