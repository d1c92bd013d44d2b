SPECIFICATION Spec
CONSTANTS Kinds = {"simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart"}
          Steps <- Steps4
          MaxOps = 4
          Jacobians = {1, 2, 3}
INVARIANTS Pattern
PROPERTIES Secant SecantHart SecantFull Kept KeptLazy Least HardResets Fresh
CHECK_DEADLOCK FALSE
