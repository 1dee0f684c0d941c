SPECIFICATION Spec
CONSTANTS
  Sizes <- SizesSmall
  Values = {0, 1, 3}
  Tols = {0, 1}
  Radii = {0, 1}
  Workers = 2
INVARIANTS Adds Laws Components Roots
CHECK_DEADLOCK FALSE
