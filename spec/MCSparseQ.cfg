SPECIFICATION Spec
CONSTANTS R = 2
          C = 2
          Two = FALSE
INVARIANTS WrittenIsRead NothingElse Identical TransposedProduct ProductOfProduct TransposeOfProduct ScaleCommutes Norms IdentityIsNeutral PlusMinus Zeroes
CHECK_DEADLOCK FALSE
