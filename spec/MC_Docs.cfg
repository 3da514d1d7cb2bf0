SPECIFICATION Spec
CONSTANTS Depth = 2 Wide = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Readable Whole Said
