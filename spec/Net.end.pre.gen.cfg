SPECIFICATION Spec
CONSTANTS
 LATE = 1000
 BOUND = 1000
 ACTS = {"open", "acc", "pub", "recv", "write", "read", "call", "reg", "eclose", "sclose"}
 BUDGET = 12
 NSTREAMS = 1
 PRE = TRUE
 FINE = FALSE
 GEN = TRUE
 BUG = "no"
INVARIANTS OK Stuck Emit
CHECK_DEADLOCK FALSE
