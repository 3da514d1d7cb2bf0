SPECIFICATION Spec
CONSTANTS Deep = 0
CHECK_DEADLOCK FALSE
INVARIANTS Made1 SameField SaysTheSame Kinded Indispensable
