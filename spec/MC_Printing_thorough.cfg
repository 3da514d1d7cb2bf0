SPECIFICATION Spec
CONSTANTS Depth = 2 TextLen = 9 Limits = {0, 4, 5, 6, 7, 8}
CHECK_DEADLOCK FALSE
INVARIANTS Hidden Shaped Moved Short Tidy Outdent Plurals
