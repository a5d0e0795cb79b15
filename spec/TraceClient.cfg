SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
CONSTANTS
  BufMax = 16383
  ReplayMax = 4096
