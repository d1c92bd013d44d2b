SPECIFICATION Spec
CONSTANTS Size = 3
          Depth = 2
          Kinds = {"narrow", "reorder", "norm"}
          Fewer = FALSE
          Show = FALSE
INVARIANTS Sizes Labels OutLabelled Undone RoundTrips
CHECK_DEADLOCK FALSE
