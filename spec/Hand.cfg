SPECIFICATION Spec
CONSTANTS
 LATE = 400
 N = 2
 CUTS = 1
 CHOOSES = {7}
 GEN = FALSE
 BUG = "no"
INVARIANT OK
VIEW View
CHECK_DEADLOCK FALSE
