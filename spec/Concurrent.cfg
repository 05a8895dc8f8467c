SPECIFICATION Spec
INVARIANT Sound
POSTCONDITION Done
CHECK_DEADLOCK FALSE
