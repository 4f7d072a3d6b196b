SPECIFICATION Spec
CONSTANTS
 CUTS = 2
 FAILS = 2
 REGS = 2
 OPS = 1
 BUG = "no"
INVARIANT OK
CHECK_DEADLOCK FALSE
