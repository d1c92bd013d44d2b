SPECIFICATION Spec
CONSTANTS MaxOps = 7
          MaxId = 8
VIEW View
INVARIANTS DistinctIds ExactlyTheLive Forwarded HeldIsLive OneHolder
CHECK_DEADLOCK FALSE
