SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  N = 3
  Nesting = 0
  Keep = "call"
INVARIANTS AsIfAlone Histories
CHECK_DEADLOCK FALSE
