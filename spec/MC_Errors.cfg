SPECIFICATION Spec
CONSTANTS MaxErrors = 2 MaxSteps = 4
CHECK_DEADLOCK FALSE
INVARIANTS ReadBack WellWritten NothingLost Stable
