SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"async", "acall", "recv", "ans", "reg", "out", "cancel"}
 BUDGET = 5
 NSTREAMS = 0
 PRE = FALSE
 FINE = TRUE
 GEN = FALSE
 BUG = "no"
INVARIANTS OK Stuck
VIEW View
CHECK_DEADLOCK FALSE
