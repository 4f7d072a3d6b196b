--------------------------------- MODULE Retry ---------------------------------
(***************************************************************************)
(* A retrying End: what it dials, what its delegate is told, and what its  *)
(* application and the servers at the other ends of its connections see.   *)
(* A functional monitor.  c is a connection, numbered with the dials.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EMPTY == [x \in {} |-> 0]
Put(f, x, v) == (x :> v) @@ f
Del(f, X) == [y \in DOMAIN f \ X |-> f[y]]

C0 == [st |-> "dial",     \* dial, conn, up: the server has it
       ended |-> FALSE,   \* it was cut, or ended for the server
       on |-> 0, off |-> 0, re |-> 0]

S0 == [st |-> "no",       \* no, new, up, failed, closing, closed
       c |-> EMPTY,
       reg |-> EMPTY,     \* methods: <<versions which may be served>>
       regop |-> EMPTY,   \* registrations which run
       at |-> 0,          \* when Close returned
       op |-> EMPTY, did |-> {}, probe |-> EMPTY,
       calm |-> FALSE]    \* nothing was lost since the last settle

Conns(s) == DOMAIN s.c
Alive(s) == {c \in Conns(s) : s.c[c].st = "up" /\ ~s.c[c].ended}
Last(s) == CHOOSE c \in Conns(s) : \A d \in Conns(s) : d <= c
Open(s) == s.st \in {"new", "up"}

DialOk(s, e) ==
    \* one may be under way at the time of the Close
    /\ \/ s.st \in {"new", "up", "closing"}
       \/ s.st = "closed" /\ e.t <= s.at + 100
    \* one at a time, and none while there is one
    /\ \A c \in Conns(s) : s.c[c].ended

\* the versions of a method, of which none may be missing once one is done
Vs(s, m) == IF m \in DOMAIN s.reg THEN s.reg[m] ELSE [done |-> FALSE, vs |-> {}]
Running(s, m) == {s.regop[o].v : o \in {x \in DOMAIN s.regop : s.regop[x].m = m}}
RegRet(s, e) ==
    LET r == s.regop[e.o] old == Vs(s, r.m)
        s1 == [s EXCEPT !.regop = Del(s.regop, {e.o})]
    IN IF ~e.ok THEN s1
       \* it takes the place of those which had returned before it began
       ELSE [s1 EXCEPT !.reg = Put(s.reg, r.m, [done |-> TRUE, vs |-> old.vs \ r.before])]

ProbeOk(s, e) ==
    LET p == s.probe[e.o] c == s.c[p.c] v == Vs(s, p.m)
        \* it's one of those which were valid at some time of the probe
    IN \/ e.v > 0 /\ e.v \in p.vs \cup v.vs
       \/ e.v = -1 /\ (~p.done \/ (p.c # 1 /\ ~p.re))
       \/ e.v = -2 /\ (c.ended \/ ~Open(s))

Ok(s, e) ==
    CASE e.ev \in {"reset", "new", "reg", "reg.ret", "op", "probe", "s.req", "s.msg", "s.down", "cut", "close", "s.fail"} -> TRUE
      [] e.ev = "new.ret" -> /\ s.st = "new"
                             /\ e.ok => \E c \in Conns(s) : s.c[c].on = 1
                             /\ ~e.ok => Alive(s) = {} 
      [] e.ev = "dial" -> DialOk(s, e)
      [] e.ev = "dial.ret" -> TRUE
      [] e.ev = "s.up" -> Open(s) \/ s.st \in {"closing", "closed", "failed"}
      [] e.ev = "d.on" -> /\ e.c \in Conns(s) /\ s.c[e.c].on = 0 /\ s.c[e.c].st # "dial"
      [] e.ev = "d.off" -> /\ e.c \in Conns(s) /\ s.c[e.c].off = 0
                           /\ s.c[e.c].ended \/ ~Open(s)
      [] e.ev = "d.re" -> /\ e.c \in Conns(s) /\ s.c[e.c].re = 0 /\ e.c # 1
                          /\ s.c[e.c].on = 1 /\ e.c = Last(s)
      [] e.ev = "probe.ret" -> ProbeOk(s, e)
      [] e.ev = "settle" ->
           /\ e.c # 0
           /\ \/ s.c[e.c].ended     \* lost again at the same time
              \/ /\ Alive(s) = {e.c}
                 /\ s.c[e.c].on = 1
                 /\ e.c # 1 => s.c[e.c].re = 1
                 /\ \A c \in Conns(s) \ {e.c} : s.c[c].on = 1 => s.c[c].off = 1
      [] e.ev = "op.ret" ->
           LET o == s.op[e.o] IN
           /\ e.ok /\ o.what \in {"call", "acall", "pub", "apub"} => o.d \in s.did
           /\ o.calm /\ s.calm => e.ok
           /\ o.what \in {"recv", "read", "acc"} => ~e.ok
      [] e.ev = "close.ret" -> TRUE
      [] e.ev = "end" -> /\ s.st \in {"failed", "closed"}
                         /\ \A c \in Conns(s) : s.c[c].ended
                         /\ \A c \in Conns(s) : s.c[c].on = 1 => s.c[c].off = 1
                         /\ s.op = EMPTY
      [] OTHER -> FALSE

Ap(s, e) ==
    CASE e.ev = "reset" -> S0
      [] e.ev = "new" -> [s EXCEPT !.st = "new"]
      [] e.ev = "new.ret" -> [s EXCEPT !.st = IF e.ok THEN "up" ELSE "failed"]
      [] e.ev = "dial" -> [s EXCEPT !.c = Put(s.c, e.c, C0)]
      [] e.ev = "dial.ret" -> [s EXCEPT !.c[e.c].st = IF e.ok THEN "conn" ELSE "no", !.c[e.c].ended = ~e.ok]
      [] e.ev = "s.up" -> [s EXCEPT !.c[e.c].st = "up"]
      [] e.ev \in {"s.down", "cut", "s.fail"} -> [s EXCEPT !.c[e.c].ended = TRUE, !.calm = FALSE,
                                   !.op = [o \in DOMAIN s.op |-> [s.op[o] EXCEPT !.calm = FALSE]]]
      [] e.ev = "d.on" -> [s EXCEPT !.c[e.c].on = 1]
      [] e.ev = "d.off" -> [s EXCEPT !.c[e.c].off = 1]
      [] e.ev = "d.re" -> [s EXCEPT !.c[e.c].re = 1]
      [] e.ev = "reg" -> LET v == Vs(s, e.m) IN
                         [s EXCEPT !.regop = Put(s.regop, e.o, [m |-> e.m, v |-> e.v, before |-> v.vs \ Running(s, e.m)]),
                                   !.reg = Put(s.reg, e.m, [v EXCEPT !.vs = @ \cup {e.v}])]
      [] e.ev = "reg.ret" -> RegRet(s, e)
      [] e.ev = "probe" -> [s EXCEPT !.probe = Put(s.probe, e.o, [c |-> e.c, m |-> e.m, vs |-> Vs(s, e.m).vs,
                                        done |-> Vs(s, e.m).done, re |-> s.c[e.c].re = 1])]
      [] e.ev = "settle" -> [s EXCEPT !.calm = ~s.c[e.c].ended]
      [] e.ev = "op" -> [s EXCEPT !.op = Put(s.op, e.o, [what |-> e.what, d |-> e.d, calm |-> s.calm])]
      [] e.ev = "op.ret" -> [s EXCEPT !.op = Del(s.op, {e.o})]
      [] e.ev \in {"s.req", "s.msg"} -> [s EXCEPT !.did = @ \cup {e.d}]
      [] e.ev = "close" -> [s EXCEPT !.st = IF @ = "closed" THEN @ ELSE "closing", !.calm = FALSE]
      [] e.ev = "close.ret" -> IF s.st = "closed" THEN s ELSE [s EXCEPT !.st = "closed", !.at = e.t]
      [] OTHER -> s
=============================================================================
