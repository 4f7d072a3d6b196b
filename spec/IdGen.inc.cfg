SPECIFICATION Spec
CONSTANTS
 MODE = "inc"
 P = {1, 2}
 W = 4
 TMAX = 1
 GETS = 3
 BUG = "no"
INVARIANT Good
CHECK_DEADLOCK FALSE
