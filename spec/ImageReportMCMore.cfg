SPECIFICATION Spec
CONSTANTS Sizes <- SizesMore
  Values = {0, 2, 7}
INVARIANTS Right Ends_ Distinct Sums
PROPERTY Finishes
CHECK_DEADLOCK FALSE
