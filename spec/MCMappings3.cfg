SPECIFICATION Spec
CONSTANTS Size = 3
          Depth = 3
          Kinds = {"narrow", "reorder", "norm"}
          Fewer = TRUE
          Show = FALSE
INVARIANTS Sizes Labels OutLabelled Undone RoundTrips
CHECK_DEADLOCK FALSE
