SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"open", "acc", "pub", "async", "recv", "ans", "write", "read", "call", "reg", "out", "sclose"}
 BUDGET = 16
 NSTREAMS = 1
 PRE = TRUE
 FINE = FALSE
 GEN = TRUE
 BUG = "no"
INVARIANTS OK Stuck Emit
CHECK_DEADLOCK FALSE
