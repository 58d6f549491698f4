SPECIFICATION Spec
CONSTANT MaxRep = 2
INVARIANTS Numbering Places There Distinct Image Grow Reach
CHECK_DEADLOCK FALSE
