SPECIFICATION Saying
CONSTANTS Deep = 0
CHECK_DEADLOCK FALSE
INVARIANTS Nested Inside
