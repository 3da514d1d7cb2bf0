SPECIFICATION Spec
CONSTANTS MaxErrors = 3 MaxSteps = 5
CHECK_DEADLOCK FALSE
INVARIANTS ReadBack WellWritten NothingLost Stable
