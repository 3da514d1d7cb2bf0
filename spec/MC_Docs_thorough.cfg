SPECIFICATION Spec
CONSTANTS Depth = 2 Wide = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Readable Whole Said
