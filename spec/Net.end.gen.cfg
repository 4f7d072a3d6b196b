SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"open", "acc", "pub", "recv", "write", "read", "call", "reg", "eclose", "sclose"}
 BUDGET = 12
 NSTREAMS = 2
 PRE = FALSE
 FINE = FALSE
 GEN = TRUE
 BUG = "no"
INVARIANTS OK Stuck Emit
CHECK_DEADLOCK FALSE
