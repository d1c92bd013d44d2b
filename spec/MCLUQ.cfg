SPECIFICATION Spec
CONSTANTS N = 3
          Off = {1}
INVARIANTS Product Within Layout LastIsIn Fresh Solved Secant HartWithin HartNeutral
CHECK_DEADLOCK FALSE
