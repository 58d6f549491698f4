SPECIFICATION Spec
CONSTANT
  Edges = TRUE
INVARIANTS ListsRight RatesRight TotalsRight NoneNegative OneEach Permutation TypesFollow Possible
CONSTRAINT Few
CHECK_DEADLOCK FALSE
