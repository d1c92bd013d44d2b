SPECIFICATION Spec
CONSTANTS N = 4
          Off = {1, 2}
INVARIANTS Product Within Layout LastIsIn Fresh Solved Secant HartWithin HartNeutral
CHECK_DEADLOCK FALSE
