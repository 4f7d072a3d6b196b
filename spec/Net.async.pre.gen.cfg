SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"async", "acall", "recv", "ans", "reg", "out", "cancel", "open", "acc", "sclose", "cut", "eclose"}
 BUDGET = 14
 NSTREAMS = 0
 PRE = TRUE
 FINE = FALSE
 GEN = TRUE
 BUG = "no"
INVARIANTS OK Stuck Emit
CHECK_DEADLOCK FALSE
