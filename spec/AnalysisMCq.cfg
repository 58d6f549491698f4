SPECIFICATION Spec
CONSTANT MaxSteps = 2
INVARIANTS MsdOk CompOk StatOk DistOk
CHECK_DEADLOCK FALSE
