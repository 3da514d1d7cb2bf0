SPECIFICATION Spec
CONSTANTS MaxSteps = 3 MaxHandles = 4
CHECK_DEADLOCK FALSE
INVARIANT TreesOnly
PROPERTIES OriginalUntouched NothingShared EditsAreLocal CloneLooksAlike InsertEffect MergeEffect RemoveEffect ExtendEffect
