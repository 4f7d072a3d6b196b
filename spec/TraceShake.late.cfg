CONSTANT LATE = 100000
SPECIFICATION Spec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
