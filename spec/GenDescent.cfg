SPECIFICATION Spec
CONSTANTS Kinds = {"simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart"}
          Length = 6
CHECK_DEADLOCK FALSE
