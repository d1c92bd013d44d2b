SPECIFICATION GSpec
CONSTANTS MaxOps = 20
          MaxId = 25
CHECK_DEADLOCK FALSE
