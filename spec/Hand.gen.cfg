SPECIFICATION Spec
CONSTANTS
 LATE = 400
 N = 2
 CUTS = 1
 CHOOSES = {7}
 GEN = TRUE
 BUG = "no"
INVARIANTS OK Emit
CHECK_DEADLOCK FALSE
