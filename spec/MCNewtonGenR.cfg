SPECIFICATION Spec
CONSTANTS Limits = {1,2}
          Strategies = {TRUE}
          Show = TRUE
INVARIANTS Converged Terminated Diverged Limit Bounds NoLate Told ToldOnce
CHECK_DEADLOCK FALSE
