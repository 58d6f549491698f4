SPECIFICATION Spec
CONSTANT
  Edges = FALSE
INVARIANTS ListsRight RatesRight TotalsRight NoneNegative OneEach Permutation TypesFollow Possible
CONSTRAINT Few
CHECK_DEADLOCK FALSE
