-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* One End of geminio, of either role, seen from both of its sides: the    *)
(* packets it exchanges with its peer, and what its application does and   *)
(* sees.  A functional monitor: Ok(s,e) tells whether event e may happen   *)
(* in state s, and Ap(s,e) is the state after it.                          *)
(*                                                                         *)
(* Whatever the End has to do - answer a packet, deliver data, end an      *)
(* operation - is an obligation: the kind of event it owes, the fields it  *)
(* must have, and the queue (in whose order it must come).  Each event of  *)
(* the End must discharge an obligation or be one of its own initiative.   *)
(*                                                                         *)
(* tx: a packet the peer sent.  rx: a packet the End sent.  a.*: what the  *)
(* application sees.  o.*: its operations.  ids, streams k and client ids  *)
(* are numbered in the order of appearance; stream 1 is the default one.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS QUIET,     \* are obligations due at a quiet moment?
          LATE       \* how late, in ms, what is due at a time may be; at least 10000: no times are checked

EMPTY == [x \in {} |-> 0]
Put(f, x, v) == (x :> v) @@ f
Del(f, X) == [y \in DOMAIN f \ X |-> f[y]]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

S0 == [n |-> 0, ob |-> EMPTY, ph |-> "none",
       role |-> "", dlg |-> FALSE, refuse |-> "", gid |-> 0, meta |-> "", acq |-> FALSE, want |-> 0,
       cid |-> 0,              \* the client id everybody has to agree on
       scale |-> 0, hbs |-> 0, hbt |-> 0, hbn |-> 0, t0 |-> 0,  \* heartbeats: interval, the last one, how many; the start
       loose |-> FALSE,        \* the peer broke the protocol, the connection may end
       junk |-> FALSE,         \* it sent bytes, which may have been packets of any kind
       ldis |-> FALSE, rdis |-> FALSE, lack |-> FALSE, rack |-> FALSE,  \* dis and disack, of the End and of the peer
       ending |-> FALSE, dead |-> FALSE, eof |-> FALSE,
       on |-> 0, off |-> 0, est |-> FALSE, failed |-> FALSE,
       own |-> {},             \* ids the End used
       dg |-> EMPTY,           \* streams
       grp |-> EMPTY,          \* session packets of the peer: their stream
       op |-> EMPTY,           \* operations of the application
       hd |-> EMPTY,           \* handlers which run
       reg |-> EMPTY,          \* methods served: <<k, m>> -> "maybe" or "yes"
       can |-> {}]             \* requests cancelled

(*************************** obligations ***********************************)
Ob(ev, f, q, k) == [ev |-> ev, f |-> f, q |-> q, k |-> k, mand |-> TRUE, g |-> 0, o |-> 0]
Need(s, b) == [s EXCEPT !.n = @ + 1, !.ob = Put(s.ob, s.n + 1, b)]
Opt(b) == [b EXCEPT !.mand = FALSE]
NeedIf(c, s, b) == IF c THEN Need(s, b) ELSE s

Match(b, e) == b.ev = e.ev /\ \A x \in DOMAIN b.f : b.f[x] = e[x]
First(s, n) == s.ob[n].q = "" \/ \A m \in DOMAIN s.ob : m < n /\ s.ob[m].q = s.ob[n].q => ~s.ob[m].mand
\* a session's stream isn't known before the first sign of it
GrpOk(s, b, e) ==
    b.g = 0 \/ (IF s.grp[b.g] = 0 THEN e.k \notin DOMAIN s.dg /\ e.k # 0 ELSE e.k = s.grp[b.g])
Cands(s, e) == {n \in DOMAIN s.ob : Match(s.ob[n], e) /\ First(s, n) /\ GrpOk(s, s.ob[n], e)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Owed(s, e) == Cands(s, e) # {}
The(s, e) == s.ob[Min(Cands(s, e))]
\* without the obligation which e discharges, and those it overtook
Done(s, e) ==
    LET n == Min(Cands(s, e)) b == s.ob[n] IN
    [s EXCEPT !.ob = Del(s.ob, {n} \cup {m \in DOMAIN s.ob : b.q # "" /\ s.ob[m].q = b.q /\ m < n})]

Release(s, P(_)) == [s EXCEPT !.ob = [n \in DOMAIN s.ob |-> IF P(s.ob[n]) THEN Opt(s.ob[n]) ELSE s.ob[n]]]
All(b) == TRUE
Kinds == {"a.msg", "a.read"}

(*************************** streams ***************************************)
Live(s, k) == k \in DOMAIN s.dg /\ s.dg[k].st = "open"
Known(s, k) == k \in DOMAIN s.dg
Dg0 == [st |-> "open", loose |-> FALSE, att |-> FALSE, ro |-> FALSE, mo |-> FALSE, acc |-> FALSE, dgon |-> 0, dgoff |-> 0,
        ls |-> FALSE, rs |-> FALSE, la |-> FALSE, ra |-> FALSE]
\* anything may happen to it
Fuzzy(s, k) == s.loose \/ s.dead \/ s.ending \/ (Known(s, k) /\ s.dg[k].loose)
Ended(s, k) == s.dead \/ s.ending \/ (Known(s, k) /\ s.dg[k].st # "open")

Loosen(s, k) ==
    IF ~Known(s, k) THEN s
    ELSE Release([s EXCEPT !.dg[k].loose = TRUE], LAMBDA b : b.k = k)
LooseAll(s) == Release([s EXCEPT !.loose = TRUE], All)

\* the reader and the receiver of k see its end, after everything before
Eofs(s, k) ==
    LET s1 == NeedIf(s.dg[k].att /\ ~s.dg[k].ro, s, Ob("a.reof", [k |-> k], "", k)) IN
    NeedIf(s.dg[k].att /\ ~s.dg[k].mo, s1, Ob("a.meof", [k |-> k], "", k))

\* a session packet for one of the streams K, all of which exist, is still to be answered: when the stream
\* ends first, there's another of that id
Racy(s, K) == \E n \in DOMAIN s.ob : s.ob[n].ev = "rx" /\ s.ob[n].k \in K /\ s.ob[n].f.typ = "sesack" /\ s.ob[n].f.err = "dialogue exists"
MaybeLoose(s, K) == IF Racy(s, K) THEN LooseAll(s) ELSE s

\* the whole connection ends
End(s) == Release([MaybeLoose(s, DOMAIN s.dg) EXCEPT !.ending = TRUE], All)

(*************************** packets of the peer ***************************)
\* a packet of stream k which isn't to be expected
Odd(s, k) == IF s.ph # "up" THEN s ELSE Loosen(s, k)

OpBy(s, what, id, k) ==
    {o \in DOMAIN s.op : s.op[o].what \in what /\ s.op[o].id = id /\ id # 0 /\ s.op[o].k = k /\ ~s.op[o].ans}
Answered(s, o, f) ==
    LET s1 == [s EXCEPT !.op[o].ans = TRUE]
        b == [Ob("o.ret", [o |-> o] @@ f, "", s.op[o].k) EXCEPT !.o = o]
    IN Need(s1, IF Fuzzy(s, s.op[o].k) \/ s.op[o].can \/ Ended(s, s.op[o].k) THEN Opt(b) ELSE b)

TxConn(s, e) ==
    IF s.role # "srv" \/ s.ph # "init" THEN LooseAll(s)
    ELSE
    LET s0 == [s EXCEPT !.ph = "hs", !.meta = e.meta, !.acq = e.acq, !.want = e.cid, !.hbs = e.hb, !.hbt = e.t,
                        !.cid = IF ~e.acq THEN e.cid ELSE IF s.dlg /\ s.gid # 0 THEN s.gid ELSE 0]
        s1 == NeedIf(s.dlg /\ e.acq, s0, Ob("a.gid", [cid |-> e.cid, meta |-> e.meta], "hs", 0))
        no == s.refuse = "on" \/ (s.refuse = "id" /\ e.acq)
        s2 == NeedIf(s.dlg /\ ~(s.refuse = "id" /\ e.acq), s1, Ob("a.on", [meta |-> e.meta], "hs", 0))
    IN IF no
       THEN LET s3 == Need(s2, Ob("rx", [typ |-> "connack", id |-> e.id, err |-> "app:refused"], "hs", 0))
                s4 == Need(s3, Ob("rx", [typ |-> "dis"], "hs", 0))
            IN Need([s4 EXCEPT !.ph = "refused"], Ob("a.end", [err |-> "other"], "", 0))
       ELSE Need(Need([s2 EXCEPT !.ph = "up", !.dg = Put(s.dg, 1, Dg0)], Ob("rx", [typ |-> "connack", id |-> e.id, err |-> "ok"], "hs", 0)),
                 Ob("a.end", [err |-> "ok", meta |-> e.meta], "", 0))

TxConnAck(s, e) ==
    IF s.role # "cli" \/ s.ph # "hs" \/ s.want # e.id THEN LooseAll(s)
    ELSE IF e.err = "ok"
    THEN Need([s EXCEPT !.ph = "up", !.cid = e.cid, !.hbt = e.t, !.dg = Put(s.dg, 1, Dg0)],
              Ob("a.end", [err |-> "ok", cid |-> e.cid, meta |-> s.meta], "", 0))
    ELSE Need([LooseAll(s) EXCEPT !.ph = "refused", !.cid = e.cid], Ob("a.end", [err |-> e.err], "", 0))

TxDis(s, e) ==
    IF s.ph \notin {"up", "hs"} THEN [LooseAll(s) EXCEPT !.rdis = TRUE]
    ELSE LET s1 == End([s EXCEPT !.rdis = TRUE])
             s2 == IF s.loose THEN s1 ELSE Need(s1, Ob("rx", [typ |-> "disack", id |-> e.id], "", 0))
         IN IF s.ldis \/ s.loose THEN s2 ELSE Need(s2, Ob("rx", [typ |-> "dis"], "", 0))

\* an id used again by the peer is another stream's
Again(s, e) == IF ~e.acq /\ Known(s, e.nid) /\ s.dg[e.nid].ls THEN [s EXCEPT !.dg[e.nid].ls = FALSE] ELSE s
TxSes(s, e) ==
    IF s.ph # "up" \/ Fuzzy(s, 1) THEN LooseAll(Again(s, e))
    ELSE IF ~e.acq /\ (e.nid = 0 \/ Known(s, e.nid))
    THEN IF Live(s, e.nid) /\ ~Fuzzy(s, e.nid) THEN Need(s, Ob("rx", [typ |-> "sesack", id |-> e.id, err |-> "dialogue exists"], "", e.nid))
         ELSE LooseAll(Again(s, e))
    ELSE LET g == e.t * 1000 + s.n
             s1 == [s EXCEPT !.grp = Put(s.grp, g, IF e.acq THEN 0 ELSE e.nid)]
             s2 == IF e.acq THEN s1 ELSE [s1 EXCEPT !.dg = Put(s.dg, e.nid, Dg0)]
             s3 == Need(s2, [Ob("rx", [typ |-> "sesack", id |-> e.id, nid |-> e.nid, err |-> "ok"], "", 0) EXCEPT !.g = g])
             s4 == Need(s3, [Ob("a.acc", [meta |-> e.meta, peer |-> e.peer], "", 0) EXCEPT !.g = g])
         IN NeedIf(s.dlg, s4, [Ob("a.dgon", [meta |-> e.meta], "", 0) EXCEPT !.g = g])

TxSesAck(s, e) ==
    LET O == {o \in DOMAIN s.op : s.op[o].what = "open" /\ s.op[o].nid = e.nid /\ e.nid # 0 /\ ~s.op[o].ans} IN
    IF O = {} \/ s.ph # "up" THEN (IF e.fg THEN LooseAll(s) ELSE s)
    ELSE LET o == CHOOSE o \in O : TRUE IN
    IF s.op[o].id # e.id \/ e.fg \/ s.loose \/ (e.err = "ok" /\ (Known(s, e.k) \/ e.k = 0)) THEN LooseAll([s EXCEPT !.op[o].ans = TRUE])
    ELSE IF e.err = "ok"
    THEN Answered([s EXCEPT !.dg = Put(s.dg, e.k, Dg0)], o, [err |-> "ok", k |-> e.k])
    ELSE Answered(s, o, [err |-> e.err])

\* stream k isn't to be used any more by the application; its operations end
Closing(s, k, st) == Eofs(Release([MaybeLoose(s, {k}) EXCEPT !.dg[k].st = st],
                                  LAMBDA b : b.k = k /\ b.ev \notin (IF st = "rc" THEN {"a.msg", "a.read"} ELSE {})), k)

TxDsm(s, e) ==
    IF s.ph # "up" \/ ~Known(s, e.k) THEN (IF e.fg THEN Loosen(s, e.k) ELSE s)
    ELSE IF Fuzzy(s, e.k) \/ s.dg[e.k].rs THEN Loosen([s EXCEPT !.dg[e.k].rs = TRUE], e.k)
    ELSE IF e.k = 1 THEN End(LooseAll(s))
    ELSE
    LET s0 == [s EXCEPT !.dg[e.k].rs = TRUE]
        s1 == IF s.dg[e.k].st = "open" THEN Closing(s0, e.k, "rc") ELSE s0
        s2 == Need(s1, Ob("rx", [typ |-> "dsmack", id |-> e.id, k |-> e.k], "", e.k))
        s3 == NeedIf(~s.dg[e.k].ls /\ s.dg[e.k].st = "open", s2, Ob("rx", [typ |-> "dsm", k |-> e.k], "", e.k))
    IN NeedIf(s.dg[e.k].dgon > 0 /\ s.dg[e.k].st = "open", s3, Ob("a.dgoff", [k |-> e.k], "", e.k))

TxData(s, e) ==
    IF s.ph # "up" THEN (IF s.role = "cli" /\ s.ph = "init" THEN LooseAll(s) ELSE s)
    ELSE IF ~Known(s, e.k) /\ ~s.loose THEN s
    ELSE
    LET ok == Live(s, e.k) /\ ~Fuzzy(s, e.k)
        add(b) == Need(s, IF ok THEN b ELSE Opt(b))
        k == e.k
    IN CASE e.typ = "msg" -> add(Ob("a.msg", [k |-> k, id |-> e.id, d |-> e.d, ok |-> TRUE], ToString(<<"m", k>>), k))
         [] e.typ = "raw" -> IF e.d = "" THEN s ELSE add(Ob("a.read", [k |-> k, d |-> e.d], ToString(<<"r", k>>), k))
         [] e.typ = "req" ->
              LET r == At(s.reg, <<k, e.m>>, "no")
                  run == Ob("a.req", [k |-> k, id |-> e.id, m |-> e.m, d |-> e.d], "", k)
                  none == Ob("rx", [typ |-> "rsp", k |-> k, id |-> e.id, err |-> "no such rpc: " \o e.m], "", k)
              IN CASE r = "yes" -> add(run)
                   [] r = "no"  -> Need(add(none), Opt(run))    \* it may be served before the End sees the request
                   [] OTHER     -> Need(Need(s, Opt(run)), Opt(none))
         [] e.typ = "reg" ->
              LET s1 == add(Ob("rx", [typ |-> "regack", k |-> k, id |-> e.id, err |-> "ok"], "", k))
                  b == Ob("a.reg", [k |-> k, m |-> e.m], ToString(<<"g", k>>), k)
              IN NeedIf(s.dlg, s1, IF ok THEN b ELSE Opt(b))
         [] e.typ = "cancel" ->
              IF <<k, e.id>> \in DOMAIN s.hd /\ s.hd[<<k, e.id>>] = "w"
              THEN [add(Ob("a.rsp", [k |-> k, id |-> e.id], "", k)) EXCEPT !.can = @ \cup {<<k, e.id>>}]
              ELSE [s EXCEPT !.can = @ \cup {<<k, e.id>>}]

TxAns(s, e) ==
    LET what == CASE e.typ = "msgack" -> {"pub"} [] e.typ = "rsp" -> {"call"} [] e.typ = "regack" -> {"reg"}
        O == OpBy(s, what, e.id, e.k)
    IN IF s.ph # "up" THEN s
       ELSE IF e.fg /\ (O = {} \/ e.typ = "regack") THEN Loosen(s, e.k)
       ELSE IF O = {} THEN s
       ELSE LET o == CHOOSE o \in O : TRUE IN
            IF e.typ = "rsp" /\ e.err = "ok" THEN Answered(s, o, [err |-> "ok", d |-> e.d])
            ELSE Answered(s, o, [err |-> e.err])

TxAp(s, e) ==
    IF e.typ = "junk" THEN [LooseAll(s) EXCEPT !.junk = TRUE]
    ELSE CASE e.typ = "conn"    -> TxConn(s, e)
      [] e.typ = "connack" -> TxConnAck(s, e)
      [] e.typ = "dis"     -> TxDis(s, e)
      [] e.typ = "disack"  -> IF s.ldis /\ ~s.lack /\ ~e.fg THEN [s EXCEPT !.lack = TRUE] ELSE LooseAll(s)
      [] e.typ = "hb"      -> IF s.ph # "up" \/ s.role # "srv" THEN s
                              ELSE LET s1 == [s EXCEPT !.hbt = e.t]
                                       m(b) == IF s.ending \/ s.loose THEN Opt(b) ELSE b
                                       s2 == Need(s1, m(Ob("rx", [typ |-> "hback", id |-> e.id], "", 0)))
                                   IN NeedIf(s.dlg, s2, m(Ob("a.hb", EMPTY, "", 0)))
      [] e.typ = "hback"   -> IF e.fg /\ s.role = "cli" /\ s.ph # "up" THEN LooseAll(s) ELSE s
      [] e.typ = "ses"     -> TxSes(s, e)
      [] e.typ = "sesack"  -> TxSesAck(s, e)
      [] e.typ = "dsm"     -> TxDsm(s, e)
      [] e.typ = "dsmack"  -> IF s.ph = "up" /\ Known(s, e.k) /\ s.dg[e.k].ls /\ ~s.dg[e.k].la /\ ~e.fg
                              THEN [s EXCEPT !.dg[e.k].la = TRUE] ELSE Odd(IF e.fg /\ e.k = 1 THEN LooseAll(s) ELSE s, e.k)
      [] e.typ \in {"msgack", "rsp", "regack"} -> TxAns(s, e)
      [] OTHER             -> TxData(s, e)

(*************************** times ****************************************)
\* With the timers of the End scaled down: scale is in ms for a second.
Timed(s) == s.scale > 0
HsTime == 10        \* for the handshake
OpTime == 30        \* for the answer to the opening of a stream
After(s, e, t, secs) == LATE >= 10000 \/ e.t >= t + secs * s.scale - 40
\* the server's: no heartbeat for twice the interval announced
HbDue(s, e) == Timed(s) /\ s.role = "srv" /\ s.ph = "up" /\ After(s, e, s.hbt, 2 * s.hbs)
\* the client's: one per interval
HbOk(s, e) == \/ ~Timed(s) \/ LATE >= 10000
              \/ e.t >= s.t0 + (s.hbn + 1) * s.hbs * s.scale - 20 * (s.hbn + 2)
\* checked with every event
TooLate(s, e) ==
    /\ Timed(s) /\ ~s.ending /\ ~s.dead /\ ~s.loose /\ ~s.eof /\ LATE < 10000
    /\ \/ s.ph = "up" /\ e.t > s.hbt + (IF s.role = "srv" THEN 2 * s.hbs ELSE s.hbs) * s.scale + LATE
       \/ s.ph \in {"init", "hs"} /\ ~s.failed /\ e.t > s.t0 + HsTime * s.scale + LATE
       \/ \E o \in DOMAIN s.op : s.op[o].what = "open" /\ e.t > s.op[o].t + OpTime * s.scale + LATE

Bind(s, g, k) ==
    IF s.grp[g] # 0 THEN s
    ELSE [s EXCEPT !.grp[g] = k, !.dg = Put(s.dg, k, Dg0)]

CidOk(s, c) == (c # 0 \/ (s.role = "srv" /\ ~s.acq)) /\ (s.cid = 0 \/ s.cid = c)

(*************************** packets of the End ****************************)
\* an id of its own: of its parity, and never used before
Fresh(s, e) == e.odd = (s.role = "cli") /\ e.id \notin s.own /\ e.id # 0
OwnTypes == {"conn", "dis", "hb", "ses", "dsm", "msg", "raw", "req", "reg"}

OpOf(s, what, e) == {o \in DOMAIN s.op : s.op[o].what = what /\ s.op[o].id = 0 /\ s.op[o].k = e.k /\ s.op[o].d = e.d /\ s.op[o].m = e.m}

RxOk(s, e) ==
    /\ ~s.eof
    /\ e.typ \in OwnTypes => Fresh(s, e)
    /\ e.typ # "cancel" => e.fg = FALSE
    /\ CASE e.typ = "conn" -> s.role = "cli" /\ s.ph = "init" /\ e.meta = s.meta /\ e.acq
         [] e.typ = "dis" -> (~s.ldis \/ s.loose) /\ (Owed(s, e) \/ s.ending \/ s.loose \/ s.ph = "refused" \/ HbDue(s, e))
         [] e.typ = "disack" -> Owed(s, e) \/ s.rdis
         [] e.typ = "hb" -> s.role = "cli" /\ s.ph = "up" /\ HbOk(s, e)
         [] e.typ = "connack" -> Owed(s, e) /\ (e.err = "ok" => CidOk(s, e.cid))
         [] e.typ = "sesack" -> (Owed(s, e) /\ (e.err = "ok" /\ ~s.loose => (s.role = "srv" /\ e.k # e.nid => ~e.kodd) /\ (s.role = "cli" /\ e.k # e.nid => e.kodd)))
                                \/ s.loose
         [] e.typ = "ses" -> Owed(s, e) /\ (e.acq = (s.role = "cli")) /\ e.nid # 0 /\ e.nid \notin DOMAIN s.dg
                             /\ (s.role = "srv" => ~e.kodd) /\ (s.role = "cli" => e.kodd)
         [] e.typ = "dsm" -> \/ Owed(s, e)
                             \/ (s.ending \/ s.loose \/ (Known(s, e.k) /\ s.dg[e.k].loose)) /\ (Known(s, e.k) => ~s.dg[e.k].ls)
         [] e.typ = "dsmack" -> Owed(s, e) \/ s.loose \/ (Known(s, e.k) /\ s.dg[e.k].loose)
         [] OTHER -> Owed(s, e)

RxAp(s, e) ==
    LET b == IF Owed(s, e) THEN The(s, e) ELSE Ob("", EMPTY, "", 0)
        s0 == IF Owed(s, e) THEN Done(s, e) ELSE s
        s1 == IF e.typ \in OwnTypes THEN [s0 EXCEPT !.own = @ \cup {e.id}] ELSE s0
    IN CASE e.typ = "conn" -> [s1 EXCEPT !.ph = "hs", !.want = e.id, !.hbs = e.hb, !.hbt = e.t]
         [] e.typ = "connack" -> IF e.err # "ok" THEN s1
                                 ELSE [s1 EXCEPT !.cid = e.cid]
         [] e.typ = "dis" -> End([s1 EXCEPT !.ldis = TRUE])
         [] e.typ = "disack" -> [s1 EXCEPT !.rack = TRUE]
         [] e.typ = "hb" -> [s1 EXCEPT !.hbt = e.t, !.hbn = @ + 1]
         [] e.typ = "sesack" -> IF b.g = 0 THEN s1 ELSE Bind(s1, b.g, e.k)
         [] e.typ = "ses" -> [s1 EXCEPT !.op[b.o].id = e.id, !.op[b.o].nid = e.nid]
         [] e.typ = "dsm" -> IF Known(s, e.k) THEN [s1 EXCEPT !.dg[e.k].ls = TRUE] ELSE s1
         [] e.typ \in {"msg", "req", "reg"} -> [s1 EXCEPT !.op[b.o].id = e.id]
         [] OTHER -> s1

(*************************** the application *******************************)
EndOk(s, e) ==
    IF Owed(s, e) THEN e.err = "ok" => CidOk(s, e.cid)
    ELSE /\ e.err # "ok"
         /\ \/ s.loose \/ s.dead \/ s.ending
            \/ Timed(s) /\ s.ph \in {"init", "hs"} /\ e.err = "timeout" /\ After(s, e, s.t0, HsTime)
EndAp(s, e) ==
    LET s1 == IF Owed(s, e) THEN Done(s, e) ELSE s IN
    IF e.err # "ok" THEN [s1 EXCEPT !.failed = TRUE]
    ELSE [s1 EXCEPT !.est = TRUE, !.cid = e.cid, !.dg = Put(s1.dg, 1, [At(s1.dg, 1, Dg0) EXCEPT !.att = TRUE])]

Att(s, k) == [s EXCEPT !.dg[k].att = TRUE]
\* it may have been closed before the application had it
AttEof(s, k) == LET s1 == Att(s, k) IN IF s1.dg[k].st # "open" /\ ~Fuzzy(s, k) THEN Eofs(s1, k) ELSE s1

CallAp(s, e) ==
    LET op == [what |-> e.what, k |-> e.k, m |-> e.m, d |-> e.d, id |-> 0, nid |-> 0, ans |-> FALSE, can |-> FALSE, t |-> e.t]
        s1 == [s EXCEPT !.op = Put(s.op, e.o, op)]
        ok == Live(s, e.k) /\ ~Fuzzy(s, e.k)
        add(f, q) == LET b == [Ob("rx", f, q, e.k) EXCEPT !.o = e.o] IN Need(s1, IF ok THEN b ELSE Opt(b))
    IN CASE e.what = "pub"   -> add([typ |-> "msg", k |-> e.k, d |-> e.d], "")
         [] e.what = "call"  -> add([typ |-> "req", k |-> e.k, d |-> e.d, m |-> e.m], "")
         [] e.what = "write" -> add([typ |-> "raw", k |-> e.k, d |-> e.d], ToString(<<"w", e.k>>))
         [] e.what = "reg"   -> [add([typ |-> "reg", k |-> e.k, m |-> e.m], "") EXCEPT
                                    !.reg = Put(s.reg, <<e.k, e.m>>, "maybe")]
         [] e.what = "open"  -> add([typ |-> "ses", meta |-> e.meta, peer |-> e.peer], "")
         [] e.what = "close" ->
              IF ok THEN LET s2 == Closing([s1 EXCEPT !.dg[e.k].ls = FALSE], e.k, "lc")
                             s3 == Need(s2, Ob("rx", [typ |-> "dsm", k |-> e.k], "", e.k))
                         IN NeedIf(s.dg[e.k].dgon > 0 /\ s.dg[e.k].st = "open", s3, Ob("a.dgoff", [k |-> e.k], "", e.k))
              ELSE s1
         [] e.what = "eclose" -> End(s1)

RetOk(s, e) ==
    /\ e.o \in DOMAIN s.op
    /\ LET op == s.op[e.o] IN
       \/ Owed(s, e)
       \/ e.err = "cancel" /\ op.can
       \/ Timed(s) /\ op.what = "open" /\ e.err = "timeout" /\ After(s, e, op.t, OpTime)
       \/ op.what \in {"close", "eclose"}
       \/ op.what = "write" /\ (e.err = "ok" \/ Ended(s, op.k) \/ Fuzzy(s, op.k))
       \/ e.err # "ok" /\ (Ended(s, op.k) \/ Fuzzy(s, op.k))
       \/ (s.loose \/ (Known(s, op.k) /\ s.dg[op.k].loose)) /\ op.ans /\ op.what = "open"
RetAp(s, e) ==
    LET op == s.op[e.o]
        s1 == [s EXCEPT !.op = Del(s.op, {e.o}),
                        !.ob = Del(s.ob, {n \in DOMAIN s.ob : s.ob[n].ev = "o.ret" /\ s.ob[n].o = e.o})]
        \* a request whose call ended before it was sent needn't be sent
        s2 == IF e.err # "ok" THEN Release(s1, LAMBDA b : b.o = e.o) ELSE s1
    IN CASE op.what = "reg" /\ e.err = "ok" -> [s2 EXCEPT !.reg = Put(s.reg, <<op.k, op.m>>, "yes")]
         [] op.what = "open" /\ e.err = "ok" ->
              AttEof(IF Known(s2, e.k) THEN s2 ELSE [s2 EXCEPT !.dg = Put(s2.dg, e.k, [Dg0 EXCEPT !.loose = TRUE])], e.k)
         [] OTHER -> s2

CancelAp(s, e) ==
    IF e.o \notin DOMAIN s.op THEN s
    ELSE LET op == s.op[e.o]
             s1 == [s EXCEPT !.op[e.o].can = TRUE]
             s2 == IF op.ans \/ Fuzzy(s, op.k) \/ Ended(s, op.k) THEN s1 ELSE Need(s1, [Ob("o.ret", [o |-> e.o, err |-> "cancel"], "", op.k) EXCEPT !.o = e.o])
         IN Need(s2, Opt(Ob("rx", [typ |-> "cancel", k |-> op.k], "", op.k)))

(*************************** after junk ************************************)
\* The bytes may have been any packet, so that there's little which the End
\* mustn't do; but operations don't succeed without an answer, the delegates
\* hear of a connection once, and everything comes to an end.
JunkOk(s, e) ==
    CASE e.ev = "rx"   -> e.typ \in OwnTypes => Fresh(s, e)
      [] e.ev = "mem"  -> e.mb < 700      \* at least 1024 were claimed
      [] e.ev = "o.ret" -> RetOk(s, e)
      [] e.ev = "a.on" -> s.on = 0
      [] e.ev = "a.off" -> s.off = 0 /\ (s.role = "srv" => s.on = 1)
      [] e.ev = "fin"  -> (s.on = 1 /\ s.role = "srv" /\ s.est) \/ (s.role = "cli" /\ s.dlg /\ s.est) => s.off = 1
      [] e.ev \in {"badframe", "hang"} -> FALSE
      [] OTHER -> TRUE
JunkAp(s, e) ==
    CASE e.ev = "rx"   -> IF Owed(s, e) THEN RxAp(s, e) ELSE IF e.typ \in OwnTypes THEN [s EXCEPT !.own = @ \cup {e.id}] ELSE s
      [] e.ev = "tx"   -> IF e.typ = "junk" THEN s ELSE TxAp(s, e)
      [] e.ev = "o.call" -> CallAp(s, e)
      [] e.ev = "o.cancel" -> CancelAp(s, e)
      [] e.ev = "o.ret" -> RetAp(s, e)
      [] e.ev = "a.on" -> [s EXCEPT !.on = 1]
      [] e.ev = "a.off" -> [s EXCEPT !.off = 1]
      [] e.ev = "a.end" -> IF e.err = "ok" THEN [s EXCEPT !.est = TRUE] ELSE s
      [] OTHER -> s

(*************************** the actions ***********************************)
Ok(s, e) ==
    IF s.junk /\ e.ev # "reset" THEN JunkOk(s, e) ELSE
    /\ e.ev # "reset" => ~TooLate(s, e)
    /\ CASE e.ev \in {"reset", "w.start", "tx", "o.call", "o.cancel", "cut", "tick"} -> TRUE
         [] e.ev = "rx" -> RxOk(s, e)
         [] e.ev = "eof" -> s.loose \/ s.dead \/ (Timed(s) /\ s.ph \in {"init", "hs"} /\ After(s, e, s.t0, HsTime)) \/ s.ph = "refused" \/ (s.ldis /\ s.rdis /\ s.lack)
         [] e.ev = "a.gid" -> Owed(s, e)
         [] e.ev = "a.on"  -> Owed(s, e) /\ CidOk(s, e.cid) /\ s.on = 0
         [] e.ev = "a.off" -> /\ s.off = 0 /\ (s.loose \/ (e.cid = s.cid /\ e.meta = s.meta))
                              /\ s.role = "srv" => s.on = 1 /\ s.ph = "up"
                              /\ s.ending \/ s.dead \/ s.loose
         [] e.ev = "a.hb"  -> Owed(s, e) /\ CidOk(s, e.cid)
         [] e.ev = "a.end" -> EndOk(s, e)
         [] e.ev = "a.acc" -> (Owed(s, e) \/ s.loose) /\ e.cid = s.cid
         [] e.ev = "a.dgon" -> (Owed(s, e) \/ s.loose) /\ e.cid = s.cid
         [] e.ev = "a.dgoff" -> /\ Known(s, e.k) \/ s.loose
                                /\ Known(s, e.k) => /\ s.dg[e.k].dgoff = 0 \/ s.loose
                                                    /\ Ended(s, e.k) \/ Fuzzy(s, e.k)
         [] e.ev \in {"a.msg", "a.read", "a.reg"} -> Owed(s, e)
         [] e.ev = "a.req" -> Owed(s, e) /\ At(s.reg, <<e.k, e.m>>, "no") # "no"
         [] e.ev = "a.done" -> TRUE
         [] e.ev = "a.rsp" -> /\ <<e.k, e.id>> \in DOMAIN s.hd
                              /\ s.hd[<<e.k, e.id>>] = "w" => <<e.k, e.id>> \in s.can \/ Ended(s, e.k) \/ Fuzzy(s, e.k)
         [] e.ev = "a.reof" -> /\ Ended(s, e.k) \/ Fuzzy(s, e.k)
                               /\ \A n \in DOMAIN s.ob : s.ob[n].ev = "a.read" /\ s.ob[n].k = e.k => ~s.ob[n].mand
         [] e.ev = "a.meof" -> /\ Ended(s, e.k) \/ Fuzzy(s, e.k)
                               /\ \A n \in DOMAIN s.ob : s.ob[n].ev = "a.msg" /\ s.ob[n].k = e.k => ~s.ob[n].mand
         [] e.ev = "o.ret" -> RetOk(s, e)
         [] e.ev = "quiet" ->
              QUIET => /\ \A n \in DOMAIN s.ob : ~s.ob[n].mand
                       /\ \A o \in DOMAIN s.op : Ended(s, s.op[o].k) => s.loose \/ (s.ending /\ ~(s.ldis /\ s.rdis))
                       /\ s.ldis /\ s.rdis /\ s.lack /\ s.rack => s.eof
         \* whatever the peer did, the connection ended or still answers
         [] e.ev = "probe" -> QUIET => e.ok
         [] e.ev = "hbs" -> QUIET => \A n \in DOMAIN s.ob : ~(s.ob[n].mand /\ (s.ob[n].ev = "a.hb" \/ (s.ob[n].ev = "rx" /\ s.ob[n].f.typ = "hback")))
         [] e.ev = "fin" -> /\ s.on = 1 /\ s.role = "srv" /\ s.ph = "up" /\ s.est => s.off = 1
                            /\ s.role = "cli" /\ s.dlg /\ s.est => s.off = 1
                            /\ \A k \in DOMAIN s.dg : s.dg[k].dgon > 0 /\ ~s.loose => s.dg[k].dgoff = 1
         [] OTHER -> FALSE

Ap(s, e) ==
    IF s.junk /\ e.ev # "reset" THEN JunkAp(s, e) ELSE
    CASE e.ev = "reset" -> S0
      [] e.ev = "w.start" -> [s EXCEPT !.ph = "init", !.role = e.role, !.dlg = e.dlg, !.refuse = e.refuse,
                                       !.gid = e.gid, !.meta = e.meta, !.scale = e.scale, !.t0 = e.t]
      [] e.ev = "tx" -> TxAp(s, e)
      [] e.ev = "rx" -> RxAp(s, e)
      [] e.ev = "eof" -> Release([s EXCEPT !.eof = TRUE, !.dead = TRUE], All)
      [] e.ev = "cut" -> Release([s EXCEPT !.dead = TRUE], All)
      [] e.ev = "a.on" -> [Done(s, e) EXCEPT !.on = 1, !.cid = e.cid]
      [] e.ev = "a.off" -> [s EXCEPT !.off = 1]
      [] e.ev \in {"a.gid", "a.hb", "a.msg", "a.read", "a.reg"} -> Done(s, e)
      [] e.ev = "a.end" -> EndAp(s, e)
      [] e.ev = "a.acc" -> IF ~Owed(s, e) THEN s ELSE AttEof(Bind(Done(s, e), The(s, e).g, e.k), e.k)
      [] e.ev = "a.dgon" -> IF ~Owed(s, e) THEN s ELSE [Bind(Done(s, e), The(s, e).g, e.k) EXCEPT !.dg[e.k].dgon = 1]
      [] e.ev = "a.dgoff" ->
           LET s1 == IF Owed(s, e) THEN Done(s, e) ELSE s IN
           IF Known(s, e.k) THEN [s1 EXCEPT !.dg[e.k].dgoff = 1] ELSE s1
      [] e.ev = "a.done" ->
           LET b == Ob("rx", [typ |-> "msgack", k |-> e.k, id |-> e.id, err |-> e.err], "", e.k) IN
           Need(s, IF Live(s, e.k) /\ ~Fuzzy(s, e.k) THEN b ELSE Opt(b))
      [] e.ev = "a.req" ->
           LET s1 == [Done(s, e) EXCEPT !.hd = Put(s.hd, <<e.k, e.id>>, e.m)] IN
           [s1 EXCEPT !.ob = Del(s1.ob, {n \in DOMAIN s1.ob : s1.ob[n].k = e.k /\ s1.ob[n].ev = "rx" /\
                 s1.ob[n].f.typ = "rsp" /\ s1.ob[n].f.id = e.id /\ s1.ob[n].f.err = "no such rpc: " \o e.m})]
      [] e.ev = "a.rsp" ->
           LET s1 == IF Owed(s, e) THEN Done(s, e) ELSE s
               b == Ob("rx", [typ |-> "rsp", k |-> e.k, id |-> e.id, err |-> e.err, d |-> e.d], "", e.k)
           IN Need(s1, IF Live(s, e.k) /\ ~Fuzzy(s, e.k) THEN b ELSE Opt(b))
      [] e.ev = "a.reof" -> LET s1 == IF Owed(s, e) THEN Done(s, e) ELSE s IN
                            IF Known(s, e.k) THEN [s1 EXCEPT !.dg[e.k].ro = TRUE] ELSE s1
      [] e.ev = "a.meof" -> LET s1 == IF Owed(s, e) THEN Done(s, e) ELSE s IN
                            IF Known(s, e.k) THEN [s1 EXCEPT !.dg[e.k].mo = TRUE] ELSE s1
      [] e.ev = "o.call" -> CallAp(s, e)
      [] e.ev = "o.cancel" -> CancelAp(s, e)
      [] e.ev = "o.ret" -> RetAp(s, e)
      [] OTHER -> s
=============================================================================
