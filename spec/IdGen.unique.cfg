SPECIFICATION Spec
CONSTANTS
 MODE = "unique"
 P = {1,2,3}
 W = 3
 TMAX = 1
 GETS = 3
 BUG = "no"
INVARIANT Good
CHECK_DEADLOCK FALSE
