SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  N = 2
  Nesting = 1
  Keep = "call"
INVARIANTS AsIfAlone Histories
CHECK_DEADLOCK FALSE
