SPECIFICATION Spec
CONSTANTS Sizes <- SizesSmall
  Values = {0, 1, 5, 6}
INVARIANTS Right Ends_ Distinct Sums
PROPERTY Finishes
CHECK_DEADLOCK FALSE
