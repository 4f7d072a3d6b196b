SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"reg", "call", "acall", "out", "chk", "route", "open", "acc"}
 BUDGET = 14
 NSTREAMS = 0
 PRE = TRUE
 FINE = FALSE
 GEN = TRUE
 BUG = "no"
INVARIANTS OK Stuck Emit
CHECK_DEADLOCK FALSE
