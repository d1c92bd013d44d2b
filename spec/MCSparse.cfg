SPECIFICATION Spec
CONSTANTS R = 2
          C = 3
          Two = TRUE
INVARIANTS WrittenIsRead NothingElse Identical TransposedProduct ProductOfProduct TransposeOfProduct ScaleCommutes Norms IdentityIsNeutral PlusMinus Zeroes
CHECK_DEADLOCK FALSE
