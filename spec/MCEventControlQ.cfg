SPECIFICATION Spec
CONSTANTS NF = 2
          Vals <- TinyVals
          MaxSteps = 2
INVARIANTS LocatedInside EnabledDirection Earliest NeverMissed OnlyCrossings SideMatches
PROPERTY NoDoubleReport
CHECK_DEADLOCK FALSE
