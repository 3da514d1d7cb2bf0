SPECIFICATION Spec
CONSTANTS Loads = {"ok", "gone", "fail"} NeedsB = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Closed Back Twice WrittenOut
PROPERTIES Monotone
