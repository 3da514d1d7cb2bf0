SPECIFICATION Spec
CONSTANTS Loads = {"ok", "gone"} NeedsB = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Closed Back Twice WrittenOut
PROPERTIES Monotone
