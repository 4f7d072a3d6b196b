SPECIFICATION Spec
CONSTANTS
 MODE = "odd"
 P = {1, 2}
 W = 6
 TMAX = 1
 GETS = 3
 BUG = "no"
INVARIANT Good
CHECK_DEADLOCK FALSE
