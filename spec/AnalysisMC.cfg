SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANTS MsdOk CompOk StatOk DistOk
CHECK_DEADLOCK FALSE
