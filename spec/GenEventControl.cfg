SPECIFICATION GSpec
CONSTANTS NF = 2
          Vals <- SmallVals
          MaxSteps = 100
CHECK_DEADLOCK FALSE
