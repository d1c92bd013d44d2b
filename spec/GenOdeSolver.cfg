SPECIFICATION GSpec
CONSTANTS Kinds <- AllKinds
          Walls <- AllWalls
          Hs <- Half
          MaxCalls = 9
          Props <- Everything
CHECK_DEADLOCK FALSE
