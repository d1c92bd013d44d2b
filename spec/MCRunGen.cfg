SPECIFICATION Spec
CONSTANTS Timings = {0, 1, 2, 4}
          Durations = {0, 3}
          Hs = {1, 2}
          Maxes = {0, 2}
          MaxRej = 1
          Runs = 1
          Odd = FALSE
          Show = TRUE
INVARIANTS Reaches Advances SolutionRecords ColumnRecords LogRecords TotalsRight Sound Starts
PROPERTIES Goes
CHECK_DEADLOCK FALSE
