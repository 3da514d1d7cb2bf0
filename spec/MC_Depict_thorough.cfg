SPECIFICATION Saying
CONSTANTS Deep = 1
CHECK_DEADLOCK FALSE
INVARIANTS Nested Inside
