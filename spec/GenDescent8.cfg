SPECIFICATION Spec
CONSTANTS Kinds = {"simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart"}
          Length = 8
CHECK_DEADLOCK FALSE
