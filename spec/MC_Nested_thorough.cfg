SPECIFICATION Spec
CONSTANTS Depth = 2 Values2 = 1
CHECK_DEADLOCK FALSE
INVARIANTS Expected SetGet MergeLaw
