SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"open", "acc", "call", "acall", "pub", "async", "reg", "write", "read", "recv", "cut", "eclose", "sclose", "cancel", "ans", "out"}
 BUDGET = 14
 NSTREAMS = 2
 PRE = FALSE
 FINE = FALSE
 GEN = TRUE
 BUG = "no"
INVARIANTS OK Stuck Emit
CHECK_DEADLOCK FALSE
