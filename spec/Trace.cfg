SPECIFICATION Spec
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
