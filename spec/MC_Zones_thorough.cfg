SPECIFICATION Spec
CONSTANTS Years = {2010, 2011, 2014, 2020} Hours = 12
CHECK_DEADLOCK FALSE
INVARIANTS Keeps Read Ordered Folds
