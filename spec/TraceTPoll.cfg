SPECIFICATION TSpec
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
