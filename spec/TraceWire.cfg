SPECIFICATION Spec
VIEW View
CONSTANTS
 QUIET = TRUE
 LATE = 400
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
