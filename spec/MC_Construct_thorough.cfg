SPECIFICATION Spec
CONSTANTS Deep = 1
CHECK_DEADLOCK FALSE
INVARIANTS Made1 SameField SaysTheSame Kinded Indispensable
