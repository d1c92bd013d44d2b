SPECIFICATION Spec
CONSTANTS MaxOps = 5
          MaxId = 8
VIEW View
INVARIANTS DistinctIds ExactlyTheLive Forwarded HeldIsLive OneHolder
CHECK_DEADLOCK FALSE
