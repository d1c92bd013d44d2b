SPECIFICATION Spec
CONSTANTS Limits = {0,1,2,3,4}
          Strategies = {TRUE, FALSE}
          Show = FALSE
INVARIANTS Converged Terminated Diverged Limit Bounds NoLate Told ToldOnce
CHECK_DEADLOCK FALSE
