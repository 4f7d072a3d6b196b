SPECIFICATION Spec
CONSTANTS
 LATE = 150
 BOUND = 1000
 ACTS = {"reg", "call", "out", "tick"}
 BUDGET = 5
 NSTREAMS = 0
 PRE = FALSE
 FINE = FALSE
 GEN = FALSE
 BUG = "no"
INVARIANTS OK Stuck
VIEW View
CHECK_DEADLOCK FALSE
