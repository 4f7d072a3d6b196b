--------------------------------- MODULE IdGen ---------------------------------
(***************************************************************************)
(* The design of the generators, in product with the monitor Ids: every    *)
(* event of the design must be allowed by the monitor.                     *)
(*                                                                         *)
(* even, odd, inc: an atomic counter under a clock of seconds (W ids per   *)
(* second; the clock may tick between the reading of it and the counting,  *)
(* and the counter wraps), retried while the id is reserved.               *)
(* unique: the least id which isn't in use, under a lock.                  *)
(* BUG seeds a fault, to see that the product finds it.                    *)
(***************************************************************************)
EXTENDS Ids
CONSTANTS MODE, P, W, TMAX, GETS, BUG

VARIABLES s, bad, now, ctr, ids, pc, x, n
vars == <<s, bad, now, ctr, ids, pc, x, n>>

Step == IF MODE = "inc" THEN 1 ELSE 2
Emit(e) == /\ bad' = (bad \/ ~Ok(s, e))
           /\ s' = IF Ok(s, e) THEN Ap(s, e) ELSE s
Universe == {t * W + c : t \in 0..TMAX, c \in 1..W}

Init == /\ s = [S0 EXCEPT !.c = Put(S0.c, "g", C0(MODE))]
        /\ bad = FALSE /\ now = 0
        /\ ctr \in (IF MODE = "odd" THEN {1} ELSE {0})
        /\ ids = {} /\ pc = [p \in P |-> "idle"] /\ x = [p \in P |-> 0] /\ n = 0

Tick == /\ now < TMAX /\ now' = now + 1 /\ UNCHANGED <<s, bad, ctr, ids, pc, x, n>>

Call(p) == /\ pc[p] = "idle" /\ n < GETS
           /\ Emit([ev |-> "i.get", c |-> "g", p |-> p])
           /\ n' = n + 1
           /\ pc' = [pc EXCEPT ![p] = IF MODE = "unique" THEN "uniq" ELSE "clock"]
           /\ UNCHANGED <<now, ctr, ids, x>>
\* time.Now(), then the atomic add
Clock(p) == /\ pc[p] = "clock"
            /\ x' = [x EXCEPT ![p] = now * W + (IF BUG = "split" THEN ctr ELSE 0)]
            /\ pc' = [pc EXCEPT ![p] = "add"]
            /\ UNCHANGED <<s, bad, now, ctr, ids, n>>
Add(p) == /\ pc[p] = "add"
          /\ IF BUG = "split"
             THEN x' = [x EXCEPT ![p] = @ + Step] /\ ctr' = ctr + Step
             ELSE ctr' = ctr + Step /\ x' = [x EXCEPT ![p] = @ + ctr']
          /\ ctr' <= W      \* as many as there are in the counter
          /\ pc' = [pc EXCEPT ![p] = IF BUG = "noreserve" THEN "ret" ELSE "chk"]
          /\ UNCHANGED <<s, bad, now, ids, n>>
Chk(p) == /\ pc[p] = "chk"
          /\ pc' = [pc EXCEPT ![p] = IF x[p] \in ids THEN "clock" ELSE "ret"]
          /\ UNCHANGED <<s, bad, now, ctr, ids, x, n>>
Uniq(p) == /\ pc[p] = "uniq"
           /\ LET v == CHOOSE i \in Universe : i \notin ids /\ \A j \in Universe : j \notin ids => i <= j
              IN x' = [x EXCEPT ![p] = v] /\ ids' = ids \cup (IF BUG = "forget" THEN {} ELSE {v})
           /\ pc' = [pc EXCEPT ![p] = "ret"]
           /\ UNCHANGED <<s, bad, now, ctr, n>>
Ret(p) == /\ pc[p] = "ret"
          /\ Emit([ev |-> "i.get.ret", p |-> p, id |-> x[p], odd |-> x[p] % 2 = 1, zero |-> x[p] = 0])
          /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ UNCHANGED <<now, ctr, ids, x, n>>
Reserve == \E v \in Universe :
              /\ v \notin ids /\ Cardinality(ids) < (IF MODE = "unique" THEN 3 ELSE 2)
              /\ ids' = ids \cup {v}
              /\ Emit([ev |-> "i.res", c |-> "g", id |-> v])
              /\ UNCHANGED <<now, ctr, pc, x, n>>
Delete == \E v \in s.c["g"].held :
              /\ MODE = "unique"
              /\ ids' = ids \ {v}
              /\ Emit([ev |-> "i.del", c |-> "g", id |-> v])
              /\ UNCHANGED <<now, ctr, pc, x, n>>
Next == Tick \/ Reserve \/ Delete \/ \E p \in P : Call(p) \/ Clock(p) \/ Add(p) \/ Chk(p) \/ Uniq(p) \/ Ret(p)
Spec == Init /\ [][Next]_vars
Good == ~bad
=============================================================================
