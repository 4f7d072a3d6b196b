SPECIFICATION Spec
CONSTANTS
 CUTS = 1
 FAILS = 1
 REGS = 2
 OPS = 1
 BUG = "no"
INVARIANT OK
CHECK_DEADLOCK FALSE
