SPECIFICATION Spec
CONSTANTS NF = 1
          Vals <- SmallVals
          MaxSteps = 5
INVARIANTS LocatedInside EnabledDirection Earliest NeverMissed OnlyCrossings SideMatches
PROPERTY NoDoubleReport
CHECK_DEADLOCK FALSE
