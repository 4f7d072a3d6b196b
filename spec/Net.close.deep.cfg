SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"pub", "recv", "write", "read", "sclose"}
 BUDGET = 5
 NSTREAMS = 0
 PRE = TRUE
 FINE = TRUE
 GEN = FALSE
 BUG = "no"
INVARIANTS OK Stuck
VIEW View
CHECK_DEADLOCK FALSE
