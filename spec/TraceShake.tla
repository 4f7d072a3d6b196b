---------------------------- MODULE TraceShake ----------------------------
(* Are the events recorded from the code a behaviour of Shake?  Runs follow *)
(* each other in one file, each starting with a reset; after an event which   *)
(* the specification doesn't allow the rest of its run is skipped.            *)
EXTENDS Shake, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Len0 == Len(Trace)

VARIABLES i, s, bad
vars == <<i, s, bad>>
Init == i = 1 /\ s = S0 /\ bad = FALSE
Next == /\ i <= Len0
        /\ i' = i + 1
        /\ LET e == Trace[i] IN
           IF bad /\ e.ev # "reset" THEN UNCHANGED <<s, bad>>
           ELSE IF Ok(s, e) THEN s' = Ap(s, e) /\ bad' = FALSE
           ELSE /\ PrintT(<<"BAD", i>>) /\ ("DEBUG" \in DOMAIN IOEnv => PrintT(<<e, s>>))
                /\ bad' = TRUE
                /\ s' = S0
Spec == Init /\ [][Next]_vars
View == i
\* every line was consumed
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len0>>)
=============================================================================
