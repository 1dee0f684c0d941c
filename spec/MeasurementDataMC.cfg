SPECIFICATION Spec
CONSTANTS
  Texts <- MCTexts
  Datas <- MCDatas
  Encs <- MCEncs
INVARIANTS Coherent DataComesBack EqualRelation
PROPERTY OnlyIts
CHECK_DEADLOCK FALSE
