SPECIFICATION Spec
VIEW View
CONSTANTS
 QUIET = FALSE
 LATE = 20000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
