SPECIFICATION Spec
CONSTANTS Depth = 2 TextLen = 7 Limits = {0, 4, 5, 6}
CHECK_DEADLOCK FALSE
INVARIANTS Hidden Shaped Moved Short Tidy Outdent Plurals
