SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"reg", "call", "out", "chk"}
 BUDGET = 4
 NSTREAMS = 0
 PRE = FALSE
 FINE = TRUE
 GEN = FALSE
 BUG = "no"
INVARIANTS OK Stuck
VIEW View
CHECK_DEADLOCK FALSE
