SPECIFICATION Spec
CONSTANTS Faces = {0, 1}
          Names = {"a", "b"}
          Types = {0, 1}
          MaxOps = 3
          Values = {0, 1, 2}
          MaxObs = 3
          Show = FALSE
INVARIANTS OneType Unique Told
PROPERTIES Separate Grows
CHECK_DEADLOCK FALSE
