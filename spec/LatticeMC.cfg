SPECIFICATION Spec
CONSTANT MaxRep = 3
INVARIANTS Numbering Places There Distinct Image Grow Reach
CHECK_DEADLOCK FALSE
