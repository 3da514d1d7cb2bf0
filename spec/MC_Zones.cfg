SPECIFICATION Spec
CONSTANTS Years = {2020} Hours = 4
CHECK_DEADLOCK FALSE
INVARIANTS Keeps Read Ordered Folds
