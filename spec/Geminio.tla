------------------------------ MODULE Geminio ------------------------------
(***************************************************************************)
(* The observable behaviour of geminio, as a monitor over events.          *)
(*                                                                         *)
(* An event is a record e with e.ev its kind and e.t the time in ms.  Each  *)
(* kind is one action: Ok(s,e) is its enabling condition in state s - the  *)
(* properties C01..C15 and C20 are those conditions - and Ap(s,e) its      *)
(* effect.  The same actions are used                                      *)
(*   - by Design (Design.tla): an implementation-shaped model, checked     *)
(*     exhaustively: every event it produces must satisfy Ok;              *)
(*   - by Gen*.tla: behaviours of that model are replayed on the code;     *)
(*   - by TraceGeminio.tla: events recorded from the code must satisfy Ok. *)
(*                                                                         *)
(* c: connection, k: stream (unique over connections), d: side (0 client,  *)
(* 1 server), o: operation.  X.call is logged before an operation starts,  *)
(* X.ret after it returned.  err is a class: ok eof timeout cancel         *)
(* mismatch nosuch unreg app other.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF   == 2000000000
SLACK == 25      \* a limit may strike this early (timer wheel of 10 ms)
DSLACK == 10     \* the same for read and write deadlines
CONSTANTS
    LATE,        \* "promptly": the machine may be loaded
    BOUND        \* operations end this long after their connection did
SIDES == {0, 1}

Put(f, x, v) == (x :> v) @@ f
Del(f, X) == [y \in DOMAIN f \ X |-> f[y]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
At(f, x, dflt) == IF x \in DOMAIN f THEN f[x] ELSE dflt
EMPTY == [x \in {} |-> 0]

S0 == [n |-> 0, now |-> 0, conn |-> EMPTY, strm |-> EMPTY, se |-> EMPTY,
       op |-> EMPTY, msg |-> EMPTY, call |-> EMPTY]

Conn0(e) == [up |-> FALSE, endT |-> INF, eret |-> {}, meta |-> e.meta, cid |-> 0,
             on |-> <<0, 0>>, off |-> <<0, 0>>, trc |-> {}, stalled |-> FALSE, dlg |-> e.dlg,
             k |-> e.k,   \* its default stream
             wait |-> [i \in 1..2 |-> {e.wait[i][j] : j \in DOMAIN e.wait[i]}],  \* methods each side waits for
             loc |-> [i \in 1..2 |-> {e.regs[j].m : j \in {x \in DOMAIN e.regs : e.regs[x].d = i - 1}}],
             made |-> {}]

Strm0(c, opener, meta, peer) ==
    [c |-> c, opener |-> opener, meta |-> meta, peer |-> peer, has |-> {},
     sc |-> <<INF, INF>>, endT |-> INF, on |-> 0, off |-> 0, af |-> 0, cf |-> 0]

\* one end of a stream
Se0 == [wb |-> 0, wok |-> 0, wlog |-> <<>>, wc |-> INF, zw |-> FALSE,  \* bytes it wrote
        rn |-> 0, rs |-> {}, rmax |-> 0,                               \* bytes it read
        und |-> {}, mustm |-> {}, mmax |-> 0,                          \* messages
        reg |-> EMPTY, hij |-> {[fn |-> "none", pm |-> {}, mode |-> "none"]},
        called |-> {}, known |-> {}, nreg |-> EMPTY, rr |-> EMPTY, chk |-> FALSE,
        dlr |-> {INF}, dlw |-> {INF}, dead |-> FALSE]

Out(s, k, d) == s.se[<<k, d>>]
EndT(s, k) == Min(s.strm[k].endT, s.conn[s.strm[k].c].endT)
Ended(s, k) == EndT(s, k) # INF
ConnEnded(s, c) == s.conn[c].endT # INF
\* the peer of d closed stream k, and nothing else happened to it
CleanlyClosed(s, k, d) ==
    /\ s.strm[k].sc[(1 - d) + 1] # INF
    /\ s.strm[k].sc[d + 1] = INF
    /\ ~ConnEnded(s, s.strm[k].c)
HasEnd(s, k, d) == k \in DOMAIN s.strm /\ d \in s.strm[k].has

ConnOps(s, c) == {o \in DOMAIN s.op : s.op[o].c = c /\ ~s.op[o].fin}

\* any operation in progress
NewOp(s, e, kind, ext) ==
    [s EXCEPT !.op = Put(s.op, e.o, ext @@
        [kind |-> kind, c |-> e.c, k |-> e.k, d |-> e.d, t0 |-> e.t, fin |-> FALSE,
         must |-> IF e.k = 0 THEN e.d \in s.conn[e.c].trc ELSE s.se[<<e.k, e.d>>].dead])]
EndOp(s, o) == [s EXCEPT !.op = Del(s.op, {o})]
IsOp(s, e, kind) == e.o \in DOMAIN s.op /\ s.op[e.o].kind = kind /\ ~s.op[e.o].fin

\* operations on an ended stream or connection end in bounded time
Bounded(s, e, endt) ==
    endt = INF \/ s.conn[s.op[e.o].c].stalled \/ e.t <= Max(endt, s.op[e.o].t0) + BOUND

(*************************** connections ***********************************)
DialOk(s, e) == e.c \notin DOMAIN s.conn /\ e.k \notin DOMAIN s.strm
DialAp(s, e) ==
    LET st == [Strm0(e.c, -1, e.meta, "") EXCEPT !.has = SIDES]
        regs(d) == {e.regs[i] : i \in {j \in DOMAIN e.regs : e.regs[j].d = d}}
        \* methods supplied at creation are registered while connecting
        se(d) == [Se0 EXCEPT !.chk = e.chk[d + 1],
                   !.reg = [m \in {r.m : r \in regs(d)} |-> {(CHOOSE r \in regs(d) : r.m = m).fn}],
                   !.called = {r.m : r \in regs(d)},
                   !.nreg = [m \in {r.m : r \in regs(d)} |-> 1]]
    IN [s EXCEPT !.conn = Put(s.conn, e.c, Conn0(e)),
                 !.strm = Put(s.strm, e.k, st),
                 !.se = (<<e.k, 0>> :> se(0)) @@ (<<e.k, 1>> :> se(1)) @@ s.se]

\* the End of a side is created: the peer registered what it waits for, and it what it was
\* supplied with (C15)
UpdOk(s, e) ==
    /\ e.c \in DOMAIN s.conn /\ e.d \notin s.conn[e.c].made
    /\ s.conn[e.c].wait[e.d + 1] \subseteq s.se[<<s.conn[e.c].k, 1 - e.d>>].called
UpdAp(s, e) ==
    [s EXCEPT !.conn[e.c].made = @ \cup {e.d},
              !.se[<<s.conn[e.c].k, e.d>>].known = @ \cup s.conn[e.c].loc[e.d + 1]]

\* both sides report the connection established (C09)
UpOk(s, e) ==
    /\ e.c \in DOMAIN s.conn /\ ~s.conn[e.c].up
    /\ e.cid[1] = e.cid[2] /\ e.cid[1] # 0
    /\ s.conn[e.c].cid \in {0, e.cid[1]}
    /\ e.meta[1] = s.conn[e.c].meta /\ e.meta[2] = s.conn[e.c].meta
    /\ \A x \in DOMAIN s.conn :
          s.conn[x].up /\ ~ConnEnded(s, x) => s.conn[x].cid # e.cid[1]
UpAp(s, e) ==
    [s EXCEPT !.conn[e.c].up = TRUE, !.conn[e.c].cid = e.cid[1]]

\* the transport is cut, an End is closed
EndConn(s, c, t) == [s EXCEPT !.conn[c].endT = Min(@, t)]
KillSide(s, c, d) ==
    [s EXCEPT !.se = [x \in DOMAIN s.se |->
        IF s.strm[x[1]].c = c /\ x[2] = d THEN [s.se[x] EXCEPT !.dead = TRUE] ELSE s.se[x]]]

EcCallAp(s, e) == NewOp(EndConn(s, e.c, e.t), [e EXCEPT !.k = 0], "ec", EMPTY)
EcRetOk(s, e) == IsOp(s, e, "ec") /\ Bounded(s, e, s.op[e.o].t0)
EcRetAp(s, e) == EndOp(s, e.o)

\* a transport is released only because the connection ended (C12, C18)
TrcOk(s, e) == e.c \in DOMAIN s.conn /\ ConnEnded(s, e.c) /\ e.d \notin s.conn[e.c].trc
TrcAp(s, e) == [s EXCEPT !.conn[e.c].trc = @ \cup {e.d}]

(*************************** streams ***************************************)
OpenCallAp(s, e) ==
    NewOp(s, [e EXCEPT !.k = 0], "open", [meta |-> e.meta, peer |-> e.peer])

\* the opener was not told of stream k yet
Unpaired(s, k) == s.strm[k].opener # -1 /\ s.strm[k].opener \notin s.strm[k].has

PeerEq(a, b) == a = "?" \/ b = "?" \/ a = b
Known(s, k, peer) == IF s.strm[k].peer = "?" THEN [s EXCEPT !.strm[k].peer = peer] ELSE s
OpenRetOk(s, e) ==
    /\ IsOp(s, e, "open")
    /\ LET o == s.op[e.o] IN
       /\ Bounded(s, e, s.conn[o.c].endT)
       /\ IF e.err # "ok" THEN ConnEnded(s, o.c)
          ELSE /\ ~o.must
               /\ e.meta = o.meta /\ e.peer = o.peer
               /\ e.cid = s.conn[o.c].cid
               /\ e.k # 0
               /\ e.k \in DOMAIN s.strm =>
                     /\ Unpaired(s, e.k)
                     /\ s.strm[e.k].c = o.c /\ s.strm[e.k].opener = o.d
                     /\ s.strm[e.k].meta = o.meta /\ PeerEq(s.strm[e.k].peer, o.peer)
Ensure(s, c, k, opener, meta, peer) ==
    IF k \in DOMAIN s.strm THEN s
    ELSE LET se(d) == [Se0 EXCEPT !.chk = s.se[<<s.conn[c].k, d>>].chk]
         IN [s EXCEPT !.strm = Put(s.strm, k, Strm0(c, opener, meta, peer)),
                      !.se = (<<k, 0>> :> se(0)) @@ (<<k, 1>> :> se(1)) @@ s.se]
OpenRetAp(s, e) ==
    LET o == s.op[e.o] IN
    IF e.err # "ok" THEN [s EXCEPT !.op[e.o].fin = TRUE]  \* the peer may still have accepted it
    ELSE LET s1 == Known(Ensure(EndOp(s, e.o), o.c, e.k, o.d, o.meta, o.peer), e.k, o.peer)
         IN [s1 EXCEPT !.strm[e.k].has = @ \cup {o.d}]

\* side d gets stream k, opened by the other side (C10); peer "?": not told
Pairs(s, c, d, k, meta, peer, cid) ==
    /\ cid = s.conn[c].cid
    /\ IF k \in DOMAIN s.strm
       THEN /\ s.strm[k].c = c /\ s.strm[k].opener = 1 - d
            /\ s.strm[k].meta = meta /\ PeerEq(s.strm[k].peer, peer)
       ELSE LET opens == {o \in DOMAIN s.op : s.op[o].kind = "open" /\ s.op[o].c = c
                            /\ s.op[o].d = 1 - d /\ s.op[o].meta = meta /\ PeerEq(s.op[o].peer, peer)}
                claims == {x \in DOMAIN s.strm : s.strm[x].c = c /\ Unpaired(s, x)
                            /\ s.strm[x].opener = 1 - d
                            /\ s.strm[x].meta = meta /\ PeerEq(s.strm[x].peer, peer)}
            IN \/ Cardinality(claims) < Cardinality(opens)
               \* with peers unknown the count says nothing
               \/ opens # {} /\ (peer = "?" \/ \E x \in claims : s.strm[x].peer = "?")

AccCallAp(s, e) == NewOp(s, [e EXCEPT !.k = 0], "acc", EMPTY)
AccRetOk(s, e) ==
    /\ IsOp(s, e, "acc")
    /\ LET o == s.op[e.o] IN
       /\ Bounded(s, e, s.conn[o.c].endT)
       /\ IF e.err # "ok" THEN ConnEnded(s, o.c) /\ e.err = "eof"
          ELSE /\ Pairs(s, o.c, o.d, e.k, e.meta, e.peer, e.cid)
               /\ ~HasEnd(s, e.k, o.d)
AccRetAp(s, e) ==
    LET o == s.op[e.o] IN
    IF e.err # "ok" THEN EndOp(s, e.o)
    ELSE LET s1 == Known(Ensure(EndOp(s, e.o), o.c, e.k, 1 - o.d, e.meta, e.peer), e.k, e.peer)
         IN [s1 EXCEPT !.strm[e.k].has = @ \cup {o.d}]

\* accept callback, delegate's DialogueOnline: exactly once per stream opened by the peer (C20)
AccFnOk(s, e) ==
    /\ e.c \in DOMAIN s.conn
    /\ Pairs(s, e.c, e.d, e.k, e.meta, e.peer, e.cid)
    /\ ~HasEnd(s, e.k, e.d)
AccFnAp(s, e) ==
    LET s1 == Known(Ensure(s, e.c, e.k, 1 - e.d, e.meta, e.peer), e.k, e.peer)
    IN [s1 EXCEPT !.strm[e.k].has = @ \cup {e.d}, !.strm[e.k].af = @ + 1]
ClsFnOk(s, e) ==
    /\ e.k \in DOMAIN s.strm
    /\ s.strm[e.k].opener = 1 - e.d =>
          /\ s.strm[e.k].af = 1 /\ s.strm[e.k].cf = 0
          /\ Ended(s, e.k)
ClsFnAp(s, e) ==
    IF s.strm[e.k].opener = 1 - e.d THEN [s EXCEPT !.strm[e.k].cf = @ + 1] ELSE s

\* listing the streams once things are quiet (C10, C11)
Listed(s, c, d) ==
    {k \in DOMAIN s.strm : s.strm[k].c = c /\ d \in s.strm[k].has /\ s.strm[k].endT = INF}
ListOk(s, e) == {e.ks[i] : i \in DOMAIN e.ks} = Listed(s, e.c, e.d)

\* close (C11)
ScCallAp(s, e) ==
    LET s1 == NewOp(s, e, "sc", EMPTY)
        first == s.strm[e.k].sc[e.d + 1] = INF
    IN IF ~first THEN s1
       ELSE [s1 EXCEPT !.strm[e.k].sc[e.d + 1] = e.t,
                       !.strm[e.k].endT = Min(@, e.t),
                       !.se[<<e.k, e.d>>].wc = s.se[<<e.k, e.d>>].wok,
                       !.se[<<e.k, e.d>>].mustm = s.se[<<e.k, e.d>>].und]
ScRetOk(s, e) == IsOp(s, e, "sc") /\ Bounded(s, e, s.op[e.o].t0)
ScRetAp(s, e) ==
    EndOp(s, e.o)

\* an end which told its user that it is over accepts nothing any more
Killed(s, x, err) == IF err \in {"timeout", "cancel"} THEN s ELSE [s EXCEPT !.se[x].dead = TRUE]

(*************************** raw bytes (C01, C13) **************************)
WCallOk(s, e) == HasEnd(s, e.k, e.d) /\ e.off = Out(s, e.k, e.d).wb
Due(s, dls, t) == IF Cardinality(dls) = 1 /\ dls # {INF}
                  THEN Max(CHOOSE x \in dls : TRUE, t) + LATE ELSE INF
WCallAp(s, e) ==
    LET q == Out(s, e.k, e.d) IN
    NewOp([s EXCEPT !.se[<<e.k, e.d>>].wb = @ + e.len,
                    !.se[<<e.k, e.d>>].zw = @ \/ e.len = 0],
          e, "w", [len |-> e.len, dls |-> q.dlw, due |-> Due(s, q.dlw, e.t)])
DlAllows(o, t) == \E x \in o.dls : x # INF /\ t >= x - DSLACK
WRetOk(s, e) ==
    /\ IsOp(s, e, "w")
    /\ LET o == s.op[e.o] IN
       /\ Bounded(s, e, EndT(s, o.k))
       /\ e.t <= o.due \/ Ended(s, o.k)
       /\ CASE e.err = "ok"      -> e.n = o.len /\ ~o.must
            [] e.err = "timeout" -> DlAllows(o, e.t) /\ e.n <= o.len
            [] OTHER             -> Ended(s, o.k)
WRetAp(s, e) ==
    LET o == s.op[e.o]
        x == <<o.k, o.d>>
        n == IF e.err = "ok" THEN o.len ELSE e.n
        s1 == EndOp(s, e.o)
    IN IF n = 0 /\ o.len # 0 THEN [s1 EXCEPT !.se[x].wb = @ - o.len]
       ELSE [s1 EXCEPT !.se[x].wok = @ + n, !.se[x].wb = @ - (o.len - n),
                       !.se[x].wlog = IF n = 0 THEN @ ELSE Append(@, <<s.se[x].wok + n, e.t>>)]

RCallOk(s, e) == HasEnd(s, e.k, e.d)
RCallAp(s, e) ==
    LET q == Out(s, e.k, e.d) IN
    NewOp(s, e, "r", [len |-> e.len, low |-> q.rmax, dls |-> q.dlr, due |-> Due(s, q.dlr, e.t)])
Overlaps(a, b, x) == a < x[2] /\ x[1] < b
RECURSIVE Absorb(_, _)
Absorb(n, R) == IF \E x \in R : x[1] = n
                THEN LET x == CHOOSE y \in R : y[1] = n IN Absorb(x[2], R \ {x})
                ELSE <<n, R>>
Reading(s, o) == {p \in DOMAIN s.op : s.op[p].kind = s.op[o].kind
                     /\ s.op[p].k = s.op[o].k /\ s.op[p].d = s.op[o].d}
RRetOk(s, e) ==
    /\ IsOp(s, e, "r")
    /\ LET o == s.op[e.o]
           me == Out(s, o.k, o.d)
           pe == Out(s, o.k, 1 - o.d)
       IN
       /\ Bounded(s, e, EndT(s, o.k))
       /\ CASE e.err = "ok" ->
                 /\ e.n <= o.len
                 /\ e.t <= o.due
                 /\ IF e.n = 0 THEN o.len = 0 \/ pe.zw
                    ELSE /\ e.off >= o.low
                         /\ e.off + e.n <= pe.wb
                         /\ e.off >= me.rn
                         /\ \A x \in me.rs : ~Overlaps(e.off, e.off + e.n, x)
            [] e.err = "timeout" ->
                 /\ DlAllows(o, e.t)
                 /\ e.t <= o.due
                 \* bytes written long ago must have been found, unless the deadline
                 \* had passed before the Read
                 /\ \/ \E x \in o.dls : x <= o.t0 + DSLACK
                    \/ s.conn[o.c].stalled
                    \/ \A i \in DOMAIN pe.wlog : pe.wlog[i][1] > me.rn => pe.wlog[i][2] > e.t - LATE
                    \/ Reading(s, e.o) # {e.o}
            [] OTHER ->
                 /\ Ended(s, o.k)
                 /\ CleanlyClosed(s, o.k, o.d) /\ Reading(s, e.o) = {e.o} =>
                      e.err = "eof" /\ me.rn >= pe.wc
RRetAp(s, e) ==
    LET o == s.op[e.o]
        x == <<o.k, o.d>>
        p == <<o.k, 1 - o.d>>
        s1 == EndOp(s, e.o)
    IN IF e.err # "ok" THEN Killed(s1, x, e.err)
       ELSE IF e.n = 0 THEN s1
       ELSE LET a == IF e.off = s.se[x].rn THEN Absorb(e.off + e.n, s.se[x].rs)
                     ELSE <<s.se[x].rn, s.se[x].rs \cup {<<e.off, e.off + e.n>>}>>
            IN [s1 EXCEPT !.se[x].rn = a[1], !.se[x].rs = a[2],
                          !.se[x].rmax = Max(@, e.off + e.n),
                          !.se[p].wlog = SelectSeq(@, LAMBDA y : y[1] > a[1])]

\* deadlines: in effect at some time from the call on, for sure after the return
DlCallOk(s, e) == HasEnd(s, e.k, e.d)
Dls(s, e) == IF e.which = "r" THEN {"r"} ELSE IF e.which = "w" THEN {"w"} ELSE {"r", "w"}
OnEnd(s, o, k, d) == s.op[o].k = k /\ s.op[o].d = d /\ s.op[o].kind \in {"r", "w"}
DlCallAp(s, e) ==
    LET x == <<e.k, e.d>>
        s1 == NewOp(s, e, "dl", [which |-> e.which, at |-> e.at])
    IN [s1 EXCEPT
          !.se[x].dlr = IF "r" \in Dls(s, e) THEN @ \cup {e.at} ELSE @,
          !.se[x].dlw = IF "w" \in Dls(s, e) THEN @ \cup {e.at} ELSE @,
          !.op = [o \in DOMAIN s1.op |->
                    IF OnEnd(s1, o, e.k, e.d) /\ s1.op[o].kind \in Dls(s, e)
                    THEN [s1.op[o] EXCEPT !.dls = @ \cup {e.at}, !.due = INF] ELSE s1.op[o]]]
DlRetOk(s, e) == IsOp(s, e, "dl") /\ (e.err = "ok" \/ Ended(s, s.op[e.o].k))
DlRetAp(s, e) ==
    LET o == s.op[e.o]
        x == <<o.k, o.d>>
        w == Dls(s, o)
        s1 == EndOp(s, e.o)
    IN IF e.err # "ok" THEN s1
       ELSE [s1 EXCEPT
          !.se[x].dlr = IF "r" \in w THEN {o.at} ELSE @,
          !.se[x].dlw = IF "w" \in w THEN {o.at} ELSE @,
          !.op = [y \in DOMAIN s1.op |->
                    IF OnEnd(s1, y, o.k, o.d) /\ s1.op[y].kind \in w
                    \* what was to come later is overridden
                    THEN [s1.op[y] EXCEPT !.due = Due(s, {o.at}, e.t), !.dls = {o.at} \cup {z \in @ : z <= e.t + DSLACK}]
                    ELSE s1.op[y]]]

(*************************** messages (C03, C04, C14) **********************)
PCallOk(s, e) == HasEnd(s, e.k, e.d) /\ e.o \notin DOMAIN s.msg
PCallAp(s, e) ==
    NewOp([s EXCEPT !.msg = Put(s.msg, e.o,
              [c |-> e.c, k |-> e.k, d |-> e.d, mode |-> e.mode, data |-> e.data, topic |-> e.topic,
               cust |-> e.cust, home |-> e.home, lim |-> e.lim, ps |-> s.n, pe |-> INF,
               rcv |-> FALSE, ans |-> {}, canc |-> FALSE, done |-> 0])],
          e, "p", EMPTY)

\* limits of publishes and calls (C08); the end of a connection ends its timers, and
\* what is pending then may be told so
LimOk(x, t) == x.lim # INF /\ t >= x.lim - SLACK
LimOrEnd(s, x, t) == LimOk(x, t) \/ (x.lim # INF /\ ConnEnded(s, x.c))

PubOutcome(s, m, e, must) ==
    /\ (m.home # m.k) <=> (e.err = "mismatch")
    /\ CASE e.err = "ok"       -> ~must /\ (m.mode = "amo" \/ <<"done", "">> \in m.ans)
         [] e.err = "app"      -> <<"err", e.txt>> \in m.ans
         [] e.err = "timeout"  -> LimOrEnd(s, m, e.t)
         [] e.err = "cancel"   -> m.canc
         [] e.err = "mismatch" -> TRUE
         [] OTHER              -> Ended(s, m.k)
    /\ m.lim # INF => e.t <= Max(m.lim, s.op[e.o].t0) + LATE
    /\ Bounded(s, e, EndT(s, m.k))

PRetOk(s, e) ==
    /\ IsOp(s, e, "p")
    /\ LET m == s.msg[e.o] IN
       IF m.mode = "async"
       THEN \* accepted, or not
            /\ (m.home # m.k) <=> (e.err = "mismatch")
            /\ e.err = "ok" => ~s.op[e.o].must
            /\ e.err # "ok" => m.done = 0 /\ (Ended(s, m.k) \/ m.home # m.k \/ LimOk(m, e.t) \/ m.canc)
       ELSE PubOutcome(s, m, e, s.op[e.o].must)
PRetAp(s, e) ==
    LET m == s.msg[e.o]
        x == <<m.k, m.d>>
        acc == e.err \in {"ok", "app"}
        pend == m.mode = "async" /\ e.err = "ok" /\ m.done = 0
        s1 == IF pend THEN s ELSE EndOp(s, e.o)
    IN [s1 EXCEPT !.msg[e.o].pe = s.n,
                  !.se[x].und = IF acc /\ ~m.rcv THEN @ \cup {e.o} ELSE @]
\* completion of an asynchronous publish, exactly once
PDoneOk(s, e) ==
    /\ IsOp(s, e, "p")
    /\ LET m == s.msg[e.o] IN
       /\ m.mode = "async" /\ m.done = 0
       /\ PubOutcome(s, m, e, FALSE)
PDoneAp(s, e) ==
    LET s1 == [s EXCEPT !.msg[e.o].done = 1]
    IN IF s.msg[e.o].pe = INF THEN s1 ELSE EndOp(s1, e.o)

MRCallOk(s, e) == HasEnd(s, e.k, e.d)
MRCallAp(s, e) == NewOp(s, e, "m", [snap |-> Out(s, e.k, e.d).mmax, lim |-> e.lim, canc |-> FALSE])
MRRetOk(s, e) ==
    /\ IsOp(s, e, "m")
    /\ LET o == s.op[e.o] IN
       /\ Bounded(s, e, EndT(s, o.k))
       /\ CASE e.err = "ok" ->
                 /\ e.m \in DOMAIN s.msg
                 /\ LET m == s.msg[e.m] IN
                    /\ m.k = o.k /\ m.d = 1 - o.d /\ ~m.rcv /\ m.home = m.k
                    /\ e.data = m.data /\ e.topic = m.topic /\ e.cust = m.cust
                    /\ e.idok
                    /\ m.pe >= o.snap      \* nothing published after it was received before
            [] e.err = "timeout" -> LimOk(o, e.t)
            [] e.err = "cancel" -> o.canc
            [] OTHER ->
                 /\ Ended(s, o.k)
                 /\ CleanlyClosed(s, o.k, o.d) /\ Reading(s, e.o) = {e.o} =>
                      e.err = "eof" /\ \A m \in Out(s, o.k, 1 - o.d).mustm : s.msg[m].rcv
MRRetAp(s, e) ==
    LET o == s.op[e.o]
        s1 == EndOp(s, e.o)
    IN IF e.err # "ok" THEN Killed(s1, <<o.k, o.d>>, e.err)
       ELSE [s1 EXCEPT !.msg[e.m].rcv = TRUE,
                       !.se[<<o.k, o.d>>].mmax = Max(@, s.msg[e.m].ps),
                       !.se[<<o.k, 1 - o.d>>].und = @ \ {e.m}]
MAnsOk(s, e) == e.m \in DOMAIN s.msg /\ s.msg[e.m].rcv
MAnsAp(s, e) ==
    [s EXCEPT !.msg[e.m].ans = @ \cup {IF e.kind = "done" THEN <<"done", "">> ELSE <<"err", e.txt>>}]

(*************************** calls (C05, C06, C08, C14, C15) ***************)
\* the functions which may serve method m at that end; "none": no such rpc
Applies(h, m) == \/ h.mode = "all"
                 \/ h.mode = "match" /\ m \in h.pm
                 \/ h.mode = "non" /\ m \notin h.pm
Serving(q, m) ==
    {h.fn : h \in {x \in q.hij : Applies(x, m)}}
    \cup (IF \E x \in q.hij : ~Applies(x, m) THEN At(q.reg, m, {"none"}) ELSE {})

\* after a change of the registrations of an end, pending calls may be served by the new ones
Recand(s, k, d) ==
    [s EXCEPT !.call = [o \in DOMAIN s.call |->
        IF s.call[o].k = k /\ s.call[o].d = 1 - d /\ ~s.call[o].ent
        THEN [s.call[o] EXCEPT !.cand = @ \cup Serving(s.se[<<k, d>>], s.call[o].method)]
        ELSE s.call[o]]]

\* what concurrent registrations may have set survives the return of this one
InProgress(s, e, kind) ==
    {s.op[o].fn : o \in {p \in DOMAIN s.op : s.op[p].kind = kind /\ s.op[p].k = e.k /\ s.op[p].d = e.d}}
RegCallOk(s, e) == HasEnd(s, e.k, e.d)
RegCallAp(s, e) ==
    LET x == <<e.k, e.d>>
        s1 == NewOp(s, e, "reg", [method |-> e.method, fn |-> e.fn,
                 old |-> At(s.se[x].reg, e.method, {"none"}) \ InProgress(s, e, "reg")])
    IN Recand([s1 EXCEPT !.se[x].reg = Put(@, e.method, At(@, e.method, {"none"}) \cup {e.fn}),
                         !.se[x].called = @ \cup {e.method},
                         !.se[x].nreg = Put(@, e.method, At(@, e.method, 0) + 1)], e.k, e.d)
RegRetOk(s, e) ==
    /\ IsOp(s, e, "reg")
    /\ LET o == s.op[e.o] IN
       /\ Bounded(s, e, EndT(s, o.k))
       /\ IF e.err = "ok" THEN ~o.must ELSE Ended(s, o.k)
RegRetAp(s, e) ==
    LET o == s.op[e.o]
        x == <<o.k, o.d>>
        s1 == EndOp(s, e.o)
    IN IF e.err # "ok" THEN s1
       ELSE [s1 EXCEPT !.se[x].reg = Put(@, o.method, {o.fn} \cup (@[o.method] \ o.old)),
                       !.se[x].known = @ \cup {o.method}]
HijCallOk(s, e) == HasEnd(s, e.k, e.d)
Hij(e) == [fn |-> e.fn, pm |-> {e.pm[i] : i \in DOMAIN e.pm}, mode |-> e.mode]
HijCallAp(s, e) ==
    LET s1 == NewOp(s, e, "hij", [h |-> Hij(e), fn |-> e.fn,
                 old |-> {h \in s.se[<<e.k, e.d>>].hij : h.fn \notin InProgress(s, e, "hij")}])
    IN Recand([s1 EXCEPT !.se[<<e.k, e.d>>].hij = @ \cup {Hij(e)}], e.k, e.d)
HijRetOk(s, e) == IsOp(s, e, "hij") /\ (e.err = "ok" \/ Ended(s, s.op[e.o].k))
HijRetAp(s, e) ==
    LET o == s.op[e.o] IN
    IF e.err # "ok" THEN EndOp(s, e.o)
    ELSE [EndOp(s, e.o) EXCEPT !.se[<<o.k, o.d>>].hij = {o.h} \cup (@ \ o.old)]

\* the delegate is told about methods the peer registered (C15)
RrOk(s, e) ==
    /\ e.k \in DOMAIN s.strm /\ s.strm[e.k].c = e.c
    /\ s.conn[e.c].cid \in {0, e.cid}
    /\ At(Out(s, e.k, e.d).rr, e.method, 0) < At(Out(s, e.k, 1 - e.d).nreg, e.method, 0)
RrAp(s, e) == [s EXCEPT !.se[<<e.k, e.d>>].rr = Put(@, e.method, At(@, e.method, 0) + 1)]

\* the peer of a registration was told of the method, before its Register returns
Learnt(s, e) == At(Out(s, e.k, e.d).rr, e.method, 0) > 0

QCallOk(s, e) == HasEnd(s, e.k, e.d) /\ e.o \notin DOMAIN s.call
QCallAp(s, e) ==
    LET peer == Out(s, e.k, 1 - e.d) IN
    NewOp([s EXCEPT !.call = Put(s.call, e.o,
              [c |-> e.c, k |-> e.k, d |-> e.d, method |-> e.method, data |-> e.data, cust |-> e.cust,
               async |-> e.async, lim |-> e.lim, home |-> e.home, canc |-> FALSE,
               cand |-> Serving(peer, e.method),
               mustsend |-> ~Out(s, e.k, e.d).chk \/ e.method \in peer.known \/ Learnt(s, e),
               learnt |-> Learnt(s, e),
               ent |-> FALSE, out |-> <<>>, ret |-> FALSE, done |-> 0, ext |-> "no"])],
          e, "q", EMPTY)
CancelOk(s, e) == e.o \in DOMAIN s.call \cup DOMAIN s.msg \cup DOMAIN s.op
CancelAp(s, e) ==
    IF e.o \in DOMAIN s.call THEN [s EXCEPT !.call[e.o].canc = TRUE]
    ELSE IF e.o \in DOMAIN s.msg THEN [s EXCEPT !.msg[e.o].canc = TRUE]
    ELSE [s EXCEPT !.op[e.o].canc = TRUE]

\* a handler starts for call o: once, at the other end, with what was sent
HInOk(s, e) ==
    /\ e.o \in DOMAIN s.call
    /\ LET q == s.call[e.o] IN
       /\ ~q.ent
       /\ e.k = q.k /\ e.d = 1 - q.d /\ q.home = q.k
       /\ e.method = q.method /\ e.data = q.data /\ e.cust = q.cust
       /\ e.idok
       /\ e.fn \in q.cand
       /\ q.mustsend \/ q.method \in Out(s, q.k, 1 - q.d).called
       \* its context carries the caller's deadline (C08)
       /\ IF q.lim = INF THEN e.ddl = INF
          ELSE e.ddl # INF /\ e.ddl >= q.lim - 60 /\ e.ddl <= q.lim + LATE \div 10
HInAp(s, e) == [s EXCEPT !.call[e.o].ent = TRUE]
\* the handler saw its context end
HCtxOk(s, e) ==
    /\ e.o \in DOMAIN s.call
    /\ LET q == s.call[e.o] IN
       /\ q.ent
       /\ \/ e.err = "timeout" /\ LimOk(q, e.t)
          \/ e.err = "cancel" /\ (q.canc \/ LimOk(q, e.t) \/ q.out # <<>>)
          \/ Ended(s, q.k)
HOutOk(s, e) == e.o \in DOMAIN s.call /\ s.call[e.o].ent /\ s.call[e.o].out = <<>>
HOutAp(s, e) == [s EXCEPT !.call[e.o].out = <<e.data, e.cust, e.txt>>]

CallOutcome(s, q, e, must) ==
    LET peer == Out(s, q.k, 1 - q.d) IN
    /\ (q.home # q.k) <=> (e.err = "mismatch")
    /\ CASE e.err = "ok"       -> ~must /\ q.out = <<e.data, e.cust, "">>
         [] e.err = "app"      -> q.out # <<>> /\ q.out[3] = e.txt /\ e.txt # ""
         [] e.err = "nosuch"   -> "none" \in q.cand /\ ~q.ent
                                   /\ (q.learnt => Ended(s, q.k))
                                   /\ (q.mustsend \/ q.method \in peer.called)
         [] e.err = "unreg"    -> ~q.mustsend /\ ~q.ent
         [] e.err = "timeout"  -> LimOrEnd(s, q, e.t)
         [] e.err = "cancel"   -> q.canc
         [] e.err = "mismatch" -> ~q.ent
         [] OTHER              -> Ended(s, q.k)
    /\ q.lim # INF => e.t <= Max(q.lim, s.op[e.o].t0) + LATE
    /\ Bounded(s, e, EndT(s, q.k))
QRetOk(s, e) ==
    /\ IsOp(s, e, "q")
    /\ LET q == s.call[e.o] IN
       IF q.async
       THEN /\ (q.home # q.k) <=> (e.err = "mismatch")
            /\ CASE e.err = "ok" -> ~s.op[e.o].must
                 [] e.err = "unreg" -> ~q.mustsend /\ ~q.ent
                 [] OTHER -> Ended(s, q.k) \/ q.home # q.k \/ LimOk(q, e.t) \/ q.canc
            /\ e.err # "ok" => q.done = 0
       ELSE CallOutcome(s, q, e, s.op[e.o].must)
QRetAp(s, e) ==
    LET q == s.call[e.o]
        s1 == [s EXCEPT !.call[e.o].ret = TRUE]
    IN IF q.async /\ e.err = "ok" /\ q.done = 0 THEN s1 ELSE EndOp(s1, e.o)
QDoneOk(s, e) ==
    /\ IsOp(s, e, "q")
    /\ LET q == s.call[e.o] IN q.async /\ q.done = 0 /\ CallOutcome(s, q, e, FALSE)
QDoneAp(s, e) ==
    LET s1 == [s EXCEPT !.call[e.o].done = 1]
    IN IF s.call[e.o].ret THEN EndOp(s1, e.o) ELSE s1

(*************************** delegates (C20) *******************************)
DlgOk(s, e) ==
    /\ e.c \in DOMAIN s.conn
    /\ LET x == s.conn[e.c] IN
       CASE e.what = "conn.on"  -> e.d = 1 /\ x.on[2] = 0 /\ x.off[2] = 0 /\ e.meta = x.meta
         [] e.what = "conn.off" -> /\ x.off[e.d + 1] = 0
                                   /\ e.d = 1 => x.on[2] = 1
                                   /\ x.up => e.cid = x.cid
                                   /\ ConnEnded(s, e.c)
         [] e.what = "dg.on"  -> /\ Pairs(s, e.c, e.d, e.k, e.meta, "?", e.cid)
                                 /\ e.k \in DOMAIN s.strm => s.strm[e.k].on = 0 /\ ~HasEnd(s, e.k, e.d)
         [] e.what = "dg.off" -> /\ e.k \in DOMAIN s.strm
                                 /\ s.strm[e.k].opener = 1 - e.d =>
                                       s.strm[e.k].on = 1 /\ s.strm[e.k].off = 0 /\ Ended(s, e.k)
DlgAp(s, e) ==
    CASE e.what = "conn.on"  -> [s EXCEPT !.conn[e.c].on[e.d + 1] = @ + 1]
      [] e.what = "conn.off" -> [s EXCEPT !.conn[e.c].off[e.d + 1] = @ + 1]
      [] e.what = "dg.on" ->
           LET s1 == Ensure(s, e.c, e.k, 1 - e.d, e.meta, "?") IN [s1 EXCEPT !.strm[e.k].on = @ + 1]
      [] e.what = "dg.off" ->
           IF s.strm[e.k].opener = 1 - e.d THEN [s EXCEPT !.strm[e.k].off = @ + 1] ELSE s

(*************************** quiescence ************************************)
InTime(s, lim) == lim = INF \/ s.now <= lim + LATE
\* a handler at work knows that its caller waits no longer
Told(s, q) == q.ent /\ q.out = <<>> /\ (q.canc \/ ~InTime(s, q.lim)) => q.ext = "yes" \/ Ended(s, q.k)
\* operation o has a reason to wait
Waits(s, o) ==
    LET p == s.op[o] IN
    IF p.k = 0
    THEN \/ p.kind = "acc" /\ \A k \in DOMAIN s.strm :
               s.strm[k].c = p.c /\ s.strm[k].opener = 1 - p.d /\ ~Ended(s, k) => p.d \in s.strm[k].has
         \/ ConnEnded(s, p.c)
    ELSE /\ ~Ended(s, p.k)
         /\ CASE p.kind = "r" -> s.now <= p.due /\ s.se[<<p.k, 1 - p.d>>].wok = s.se[<<p.k, p.d>>].rn
              [] p.kind = "m" -> ~p.canc /\ InTime(s, p.lim) /\ s.se[<<p.k, 1 - p.d>>].und = {}
              [] p.kind = "p" -> s.msg[o].ans = {} /\ ~s.msg[o].canc /\ InTime(s, s.msg[o].lim)
              [] p.kind = "q" -> s.call[o].ent /\ s.call[o].out = <<>> /\ ~s.call[o].canc /\ InTime(s, s.call[o].lim)
              [] OTHER -> FALSE
\* the driver waited for everything that is due on live streams
QuietOk(s, e) ==
    /\ \A x \in DOMAIN s.se :
          s.strm[x[1]].c = e.c /\ ~Ended(s, x[1]) =>
            /\ e.raw => s.se[x].wok = s.se[<<x[1], 1 - x[2]>>].rn
            /\ e.msg => s.se[x].und = {}
            /\ \A m \in s.se[x].known :
                 s.conn[e.c].dlg => At(s.se[<<x[1], 1 - x[2]>>].rr, m, 0) = s.se[x].nreg[m]
    /\ \A k \in DOMAIN s.strm : s.strm[k].c = e.c /\ s.strm[k].opener # -1 /\ ~Ended(s, k) =>
            /\ s.strm[k].has = SIDES
            /\ s.conn[e.c].dlg => s.strm[k].on = 1
    /\ e.prog => /\ \A o \in ConnOps(s, e.c) : Waits(s, o)
                 /\ \A o \in DOMAIN s.call : s.call[o].c = e.c => Told(s, s.call[o])
\* the connection is over on both sides: everything returned, everyone was told
FinOk(s, e) ==
    /\ ConnOps(s, e.c) = {}
    /\ ConnEnded(s, e.c)
    /\ s.conn[e.c].dlg => /\ s.conn[e.c].off[1] = 1
                          /\ s.conn[e.c].on[2] = 1 /\ s.conn[e.c].off[2] = 1
    /\ e.trc => s.conn[e.c].trc = SIDES
    /\ \A k \in DOMAIN s.strm : s.strm[k].c = e.c =>
            /\ s.strm[k].on = s.strm[k].off
            /\ s.strm[k].af = s.strm[k].cf
FinAp(s, e) ==
    LET ks == {k \in DOMAIN s.strm : s.strm[k].c = e.c} IN
    [s EXCEPT !.conn = Del(s.conn, {e.c}), !.strm = Del(s.strm, ks),
              !.se = Del(s.se, {x \in DOMAIN s.se : x[1] \in ks}),
              !.op = Del(s.op, {o \in DOMAIN s.op : s.op[o].c = e.c}),
              !.msg = Del(s.msg, {o \in DOMAIN s.msg : s.msg[o].c = e.c}),
              !.call = Del(s.call, {o \in DOMAIN s.call : s.call[o].c = e.c})]

(*************************** the monitor ***********************************)
Ok(s, e) ==
    /\ e.ev = "reset" \/ e.t >= s.now
    /\ CASE e.ev = "reset"     -> TRUE
         [] e.ev = "note"      -> TRUE
         [] e.ev = "dial"      -> DialOk(s, e)
         [] e.ev = "upd"       -> UpdOk(s, e)
         [] e.ev = "up"        -> s.conn[e.c].made = SIDES /\ UpOk(s, e)
         [] e.ev = "cut"       -> e.c \in DOMAIN s.conn
         [] e.ev = "stall"     -> e.c \in DOMAIN s.conn
         [] e.ev = "dead"      -> ConnEnded(s, e.c)
         [] e.ev = "ec.call"   -> e.c \in DOMAIN s.conn
         [] e.ev = "ec.ret"    -> EcRetOk(s, e)
         [] e.ev = "trc"       -> TrcOk(s, e)
         [] e.ev = "open.call" -> e.c \in DOMAIN s.conn /\ s.conn[e.c].up
         [] e.ev = "open.ret"  -> OpenRetOk(s, e)
         [] e.ev = "acc.call"  -> e.c \in DOMAIN s.conn /\ s.conn[e.c].up
         [] e.ev = "acc.ret"   -> AccRetOk(s, e)
         [] e.ev = "accfn"     -> AccFnOk(s, e)
         [] e.ev = "clsfn"     -> ClsFnOk(s, e)
         [] e.ev = "list"      -> ListOk(s, e)
         [] e.ev = "sc.call"   -> HasEnd(s, e.k, e.d)
         [] e.ev = "sc.ret"    -> ScRetOk(s, e)
         [] e.ev = "w.call"    -> WCallOk(s, e)
         [] e.ev = "w.ret"     -> WRetOk(s, e)
         [] e.ev = "r.call"    -> RCallOk(s, e)
         [] e.ev = "r.ret"     -> RRetOk(s, e)
         [] e.ev = "dl.call"   -> DlCallOk(s, e)
         [] e.ev = "dl.ret"    -> DlRetOk(s, e)
         [] e.ev = "p.call"    -> PCallOk(s, e)
         [] e.ev = "p.ret"     -> PRetOk(s, e)
         [] e.ev = "p.done"    -> PDoneOk(s, e)
         [] e.ev = "m.rcall"   -> MRCallOk(s, e)
         [] e.ev = "m.rret"    -> MRRetOk(s, e)
         [] e.ev = "m.ans"     -> MAnsOk(s, e)
         [] e.ev = "reg.call"  -> RegCallOk(s, e)
         [] e.ev = "reg.ret"   -> RegRetOk(s, e)
         [] e.ev = "hij.call"  -> HijCallOk(s, e)
         [] e.ev = "hij.ret"   -> HijRetOk(s, e)
         [] e.ev = "rr"        -> RrOk(s, e)
         [] e.ev = "q.call"    -> QCallOk(s, e)
         [] e.ev = "cancel"    -> CancelOk(s, e)
         [] e.ev = "q.ret"     -> QRetOk(s, e)
         [] e.ev = "q.done"    -> QDoneOk(s, e)
         [] e.ev = "h.in"      -> HInOk(s, e)
         [] e.ev = "h.ctx"     -> HCtxOk(s, e)
         [] e.ev = "h.out"     -> HOutOk(s, e)
         [] e.ev = "dlg"       -> DlgOk(s, e)
         \* (with e.prog only a while without events tells that everything is done)
         [] e.ev = "quiet"     -> (e.prog /\ LATE >= 20000) \/ QuietOk(s, e)
         [] e.ev = "fin"       -> FinOk(s, e)
         [] OTHER              -> FALSE      \* hang, crash, and events nothing allows

Ef(s, e) ==
    CASE e.ev = "dial"      -> DialAp(s, e)
      [] e.ev = "upd"       -> UpdAp(s, e)
      [] e.ev = "up"        -> UpAp(s, e)
      [] e.ev = "cut"       -> EndConn(s, e.c, e.t)
      [] e.ev = "stall"     -> [s EXCEPT !.conn[e.c].stalled = TRUE]
      [] e.ev = "dead"      -> KillSide(s, e.c, e.d)
      [] e.ev = "ec.call"   -> EcCallAp(s, e)
      [] e.ev = "ec.ret"    -> EcRetAp(s, e)
      [] e.ev = "trc"       -> TrcAp(s, e)
      [] e.ev = "open.call" -> OpenCallAp(s, e)
      [] e.ev = "open.ret"  -> OpenRetAp(s, e)
      [] e.ev = "acc.call"  -> AccCallAp(s, e)
      [] e.ev = "acc.ret"   -> AccRetAp(s, e)
      [] e.ev = "accfn"     -> AccFnAp(s, e)
      [] e.ev = "clsfn"     -> ClsFnAp(s, e)
      [] e.ev = "sc.call"   -> ScCallAp(s, e)
      [] e.ev = "sc.ret"    -> ScRetAp(s, e)
      [] e.ev = "w.call"    -> WCallAp(s, e)
      [] e.ev = "w.ret"     -> WRetAp(s, e)
      [] e.ev = "r.call"    -> RCallAp(s, e)
      [] e.ev = "r.ret"     -> RRetAp(s, e)
      [] e.ev = "dl.call"   -> DlCallAp(s, e)
      [] e.ev = "dl.ret"    -> DlRetAp(s, e)
      [] e.ev = "p.call"    -> PCallAp(s, e)
      [] e.ev = "p.ret"     -> PRetAp(s, e)
      [] e.ev = "p.done"    -> PDoneAp(s, e)
      [] e.ev = "m.rcall"   -> MRCallAp(s, e)
      [] e.ev = "m.rret"    -> MRRetAp(s, e)
      [] e.ev = "m.ans"     -> MAnsAp(s, e)
      [] e.ev = "reg.call"  -> RegCallAp(s, e)
      [] e.ev = "reg.ret"   -> RegRetAp(s, e)
      [] e.ev = "hij.call"  -> HijCallAp(s, e)
      [] e.ev = "hij.ret"   -> HijRetAp(s, e)
      [] e.ev = "rr"        -> RrAp(s, e)
      [] e.ev = "q.call"    -> QCallAp(s, e)
      [] e.ev = "cancel"    -> CancelAp(s, e)
      [] e.ev = "q.ret"     -> QRetAp(s, e)
      [] e.ev = "q.done"    -> QDoneAp(s, e)
      [] e.ev = "h.in"      -> HInAp(s, e)
      [] e.ev = "h.ctx"     -> [s EXCEPT !.call[e.o].ext = "yes"]
      [] e.ev = "h.out"     -> HOutAp(s, e)
      [] e.ev = "dlg"       -> DlgAp(s, e)
      [] e.ev = "fin"       -> FinAp(s, e)
      [] OTHER              -> s

Ap(s, e) == IF e.ev = "reset" THEN S0
            ELSE [Ef(s, e) EXCEPT !.n = s.n + 1, !.now = e.t]
=============================================================================
