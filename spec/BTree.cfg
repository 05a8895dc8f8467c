SPECIFICATION Spec
INVARIANT IsMap
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 7
 T = 2
 Emit = FALSE
