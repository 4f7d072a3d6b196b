SPECIFICATION Spec
VIEW View
CONSTANTS
 LATE = 20000
 BOUND = 40000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
