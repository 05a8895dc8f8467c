SPECIFICATION RSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
