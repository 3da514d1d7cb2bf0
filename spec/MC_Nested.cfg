SPECIFICATION Spec
CONSTANTS Depth = 2 Values2 = 0
CHECK_DEADLOCK FALSE
INVARIANTS Expected SetGet MergeLaw
