CONSTANT LATE = 3000
SPECIFICATION Spec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
