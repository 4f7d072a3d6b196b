SPECIFICATION Spec
VIEW View
CONSTANTS
 LATE = 1000
 BOUND = 16000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
