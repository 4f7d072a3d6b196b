SPECIFICATION Spec
CONSTANTS
 LATE = 400
 N = 3
 CUTS = 2
 CHOOSES = {7}
 GEN = FALSE
 BUG = "no"
INVARIANT OK
VIEW View
CHECK_DEADLOCK FALSE
