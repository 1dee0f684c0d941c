SPECIFICATION Spec
CONSTANTS
  Sizes <- SizesSmall
  Values = {0, 2}
  Tols = {0, 1, 2}
  Radii = {0, 1}
  Workers = 2
INVARIANTS Adds Laws Components Roots
PROPERTY Ends
CHECK_DEADLOCK FALSE
