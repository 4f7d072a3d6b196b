--------------------------------- MODULE Shake ---------------------------------
(***************************************************************************)
(* Establishing connections: clients connect to servers of one process,    *)
(* whose delegates choose ids or refuse.  A functional monitor; client c   *)
(* of a run is connection c.  Ids are strings; "0" is none.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT LATE            \* "promptly" in ms: the machine may be loaded

EMPTY == [x \in {} |-> 0]
Put(f, x, v) == (x :> v) @@ f

S0 == [c |-> EMPTY, fresh |-> {}]
\* e.dlg: the server has a delegate; e.sid: its ClientID option
\* e.late: how long the delegate and the driver take altogether
C0(e) == [meta |-> e.meta, want |-> e.want, dlg |-> e.dlg, sid |-> e.sid, late |-> e.late,
          gid |-> 0, on |-> 0, onret |-> FALSE,
          id |-> "0",                 \* the agreed id, once it's known
          no |-> FALSE, why |-> "", cut |-> FALSE,
          at |-> 0,                   \* when both sides had begun
          cret |-> "", sret |-> "",   \* how they returned
          off |-> 0]

Max(a, b) == IF a > b THEN a ELSE b
Known(s, c) == c \in DOMAIN s.c

\* c gets id i, now
IdOk(s, c, i) ==
    LET x == s.c[c] IN
    IF x.id # "0" THEN i = x.id
    ELSE /\ i # "0"
         /\ IF ~x.dlg /\ x.sid # "0" THEN i = x.sid ELSE i \notin s.fresh
SetId(s, c, i) ==
    IF s.c[c].id # "0" THEN s
    ELSE [s EXCEPT !.c[c].id = i, !.fresh = IF s.c[c].sid # "0" THEN @ ELSE @ \cup {i}]

\* it may fail
MayFail(s, c) == s.c[c].no \/ s.c[c].cut
Timely(s, e) == e.t <= s.c[e.c].at + s.c[e.c].late + LATE

Ok(s, e) ==
    CASE e.ev \in {"reset", "conn", "cut", "bye", "note"} -> TRUE
      [] e.ev \in {"dial", "acc"} -> Known(s, e.c)
      [] e.ev = "gid" -> /\ Known(s, e.c) /\ s.c[e.c].dlg
                         /\ s.c[e.c].gid = 0 /\ s.c[e.c].on = 0
                         /\ e.meta = s.c[e.c].meta /\ e.want = s.c[e.c].want
      [] e.ev = "gid.ret" -> TRUE
      [] e.ev = "on" -> /\ Known(s, e.c) /\ s.c[e.c].dlg
                        /\ s.c[e.c].gid = 1 /\ s.c[e.c].on = 0 /\ ~s.c[e.c].no
                        /\ e.meta = s.c[e.c].meta
                        /\ IdOk(s, e.c, e.id)
      [] e.ev = "on.ret" -> TRUE
      [] e.ev = "off" -> \* only what was online goes offline
                         /\ Known(s, e.c) /\ s.c[e.c].on = 1 /\ ~s.c[e.c].no /\ s.c[e.c].off = 0
                         /\ e.meta = s.c[e.c].meta /\ e.id = s.c[e.c].id
      [] e.ev = "dial.ret" ->
           LET x == s.c[e.c] IN
           /\ Timely(s, e)
           /\ IF e.ok THEN /\ ~x.no
                           /\ x.dlg => x.onret
                           /\ e.meta = x.meta
                           /\ IdOk(s, e.c, e.id)
              ELSE /\ MayFail(s, e.c)
                   /\ ~x.cut => e.err = x.why
      [] e.ev = "acc.ret" ->
           \* (the server's returns without the conn of a client which isn't known)
           IF e.ok THEN /\ Known(s, e.c)
                        /\ Timely(s, e)
                        /\ ~s.c[e.c].no /\ s.c[e.c].sret = ""
                        /\ s.c[e.c].dlg => s.c[e.c].onret
                        /\ e.meta = s.c[e.c].meta
                        /\ IdOk(s, e.c, e.id)
           ELSE IF Known(s, e.c) THEN MayFail(s, e.c) /\ Timely(s, e)
           \* a shared listener doesn't say which one failed
           ELSE \E c \in DOMAIN s.c : MayFail(s, c)
      [] e.ev = "echo.ret" -> s.c[e.c].cut \/ e.ok
      \* everything returned
      [] e.ev = "settle" -> \A c \in DOMAIN s.c :
              /\ s.c[c].cret # "" /\ (s.c[c].sret # "" \/ MayFail(s, c))
              /\ ~MayFail(s, c) => s.c[c].cret = "ok" /\ s.c[c].sret = "ok"
      [] e.ev = "end" -> \A c \in DOMAIN s.c :
              s.c[c].dlg => (s.c[c].off = 1) = (s.c[c].onret /\ ~s.c[c].no)
      [] OTHER -> FALSE

Ap(s, e) ==
    CASE e.ev = "reset" -> S0
      [] e.ev = "conn" -> [s EXCEPT !.c = Put(s.c, e.c, C0(e))]
      [] e.ev \in {"dial", "acc"} -> [s EXCEPT !.c[e.c].at = Max(@, e.t)]
      [] e.ev = "gid" -> [s EXCEPT !.c[e.c].gid = 1]
      [] e.ev = "gid.ret" -> [s EXCEPT !.c[e.c].no = e.no, !.c[e.c].why = e.err, !.c[e.c].id = e.id]
      [] e.ev = "on" -> [SetId(s, e.c, e.id) EXCEPT !.c[e.c].on = 1]
      [] e.ev = "on.ret" -> [s EXCEPT !.c[e.c].no = e.no, !.c[e.c].why = e.err, !.c[e.c].onret = TRUE]
      [] e.ev = "off" -> [s EXCEPT !.c[e.c].off = 1]
      [] e.ev = "dial.ret" -> [(IF e.ok THEN SetId(s, e.c, e.id) ELSE s) EXCEPT !.c[e.c].cret = IF e.ok THEN "ok" ELSE "no"]
      [] e.ev = "acc.ret" -> IF ~Known(s, e.c) THEN s
                             ELSE [(IF e.ok THEN SetId(s, e.c, e.id) ELSE s) EXCEPT !.c[e.c].sret = IF e.ok THEN "ok" ELSE "no"]
      [] e.ev = "cut" -> [s EXCEPT !.c[e.c].cut = TRUE]
      [] OTHER -> s
=============================================================================
