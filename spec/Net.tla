------------------------------- MODULE Net -------------------------------
(***************************************************************************)
(* An implementation-shaped model of one connection: two sides, each with  *)
(* dialogues (the multiplexer's state machine of SESSION, SESSION_ACK,     *)
(* DISMISS and DISMISS_ACK), streams with their send queues, buffers and   *)
(* tables, and one ordered link per direction.  Users act on it; what they *)
(* observe is a sequence of the events of Geminio.tla, and the monitor of  *)
(* Geminio.tla runs along: OK says that it allowed every event.            *)
(*                                                                         *)
(* Checked exhaustively within the budgets of the Net.*.cfg, and used to   *)
(* generate schedules (GEN) which the driver replays on the code, packet   *)
(* by packet.  BUG selects a fault which the monitor has to find.          *)
(***************************************************************************)
EXTENDS Geminio, Json, IOUtils

CONSTANTS
    ACTS,       \* kinds of actions of the users
    BUDGET,     \* how many of them
    NSTREAMS,   \* how many streams may be opened
    PRE,        \* a stream is there from the start
    FINE,       \* every internal step on its own, or (FALSE) at once
    GEN,        \* print schedules
    BUG

VARIABLES net, mon, ok, sch
vars == <<net, mon, ok, sch>>

C == 1
OTHER1(d) == 1 - d
Str(x) == ToString(x)

(*************************** the monitor runs along ************************)
\* n only orders the events of messages: keep it small
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Norm(m) == [m EXCEPT !.n = 1 + MaxOf({0} \cup {m.msg[o].ps : o \in DOMAIN m.msg}
    \cup {m.msg[o].pe : o \in {x \in DOMAIN m.msg : m.msg[x].pe # INF}} \cup {m.se[x].mmax : x \in DOMAIN m.se})]
RECURSIVE Run(_, _, _)
Run(m, good, es) ==
    IF es = <<>> \/ ~good THEN <<m, good>>
    ELSE Run(Ap(m, Head(es)), Ok(m, Head(es)), Tail(es))

E(ev, r) == [ev |-> ev, t |-> net.now] @@ r
Step(n, es, a) ==
    LET r == Run(mon, TRUE, es) IN
    /\ net' = n
    /\ mon' = Norm(r[1])
    /\ ok' = r[2]
    /\ sch' = IF GEN /\ a.a # "i" THEN Append(sch, a @@ [l |-> <<Len(net.link[1]), Len(net.link[2])>>]) ELSE sch

(*************************** state *****************************************)
Ep0(acc) ==
    [ph |-> "live",        \* live ds dr half over: the dialogue
     cl |-> FALSE,         \* it was told to close
     pd |-> FALSE,         \* its dismiss is to be sent
     has |-> FALSE,        \* the user has it
     acc |-> acc,          \* opened by the peer
     fin |-> FALSE,        \* the stream is finished
     ac |-> FALSE,         \* the user closed it
     q |-> <<>>,           \* its send queue
     raw |-> <<>>, wn |-> 0, msgs |-> <<>>,
     rem |-> {}, fns |-> EMPTY, hij |-> <<>>,
     dlr |-> INF, dlw |-> INF]   \* deadlines

TICK == 200                 \* ms; time passes in steps, limits strike in the middle of one
TIMED == "tick" \in ACTS
RELS == IF TIMED THEN {0, 100, 300} ELSE {0}
At1(rel) == IF rel = 0 THEN INF ELSE net.now + rel

CHK == "chk" \in ACTS
D0 == [ev |-> "dial", t |-> 0, c |-> C, k |-> 1, meta |-> "cm", dlg |-> TRUE, chk |-> <<CHK, CHK>>, regs |-> <<>>, wait |-> <<<<>>, <<>>>>]
Init0 == <<[ev |-> "reset", t |-> 0], D0,
           [ev |-> "dlg", t |-> 0, c |-> C, d |-> 1, what |-> "conn.on", k |-> 0, cid |-> 1, meta |-> "cm"],
           [ev |-> "upd", t |-> 0, c |-> C, d |-> 0], [ev |-> "upd", t |-> 0, c |-> C, d |-> 1],
           [ev |-> "up", t |-> 0, c |-> C, cid |-> <<1, 1>>, meta |-> <<"cm", "cm">>]>>
         \o IF ~PRE THEN <<>> ELSE
         <<[ev |-> "open.call", t |-> 0, c |-> C, d |-> 0, o |-> 901, k |-> 0, meta |-> "m", peer |-> "p"],
           [ev |-> "dlg", t |-> 0, c |-> C, d |-> 1, what |-> "dg.on", k |-> 2, cid |-> 1, meta |-> "m"],
           [ev |-> "open.ret", t |-> 0, c |-> C, d |-> 0, o |-> 901, k |-> 2, err |-> "ok", meta |-> "m", peer |-> "p", cid |-> 1],
           [ev |-> "acc.call", t |-> 0, c |-> C, d |-> 1, o |-> 902, k |-> 0],
           [ev |-> "acc.ret", t |-> 0, c |-> C, d |-> 1, o |-> 902, k |-> 2, err |-> "ok", meta |-> "m", peer |-> "p", cid |-> 1]>>
Init ==
    /\ net = [ep |-> [x \in (IF PRE THEN {1, 2} ELSE {1}) \X SIDES |-> [Ep0(x = <<2, 1>>) EXCEPT !.has = TRUE]],
              link |-> <<(<<>>), (<<>>)>>,
              op |-> EMPTY, hs |-> EMPTY, ans |-> EMPTY,
              accq |-> <<(<<>>), (<<>>)>>,
              cph |-> <<"up", "up">>,    \* up sent recv half dead: the connection
              ccl |-> <<FALSE, FALSE>>, cpd |-> <<FALSE, FALSE>>,
              mux |-> <<TRUE, TRUE>>,    \* the multiplexer works
              ec |-> <<FALSE, FALSE>>, eops |-> <<{}, {}>>,
              cut |-> FALSE, fini |-> FALSE,
              no |-> 1, nk |-> IF PRE THEN 3 ELSE 2, bud |-> BUDGET, now |-> 0]
    /\ LET r == Run(S0, TRUE, Init0) IN mon = r[1] /\ ok = r[2]
    /\ sch = <<>>

Eps == DOMAIN net.ep
Ends == {x \in Eps : net.ep[x].has}           \* what the users have
Link(n, d, p) == IF n.cut \/ n.cph[d + 1] = "dead" THEN n ELSE [n EXCEPT !.link[d + 1] = Append(@, p)]
NewOpn(n, r) == [n EXCEPT !.op = Put(@, n.no, r @@ [res |-> "", txt |-> "", lim |-> INF]), !.no = @ + 1]
Res(n, o, r) == IF o \in DOMAIN n.op /\ n.op[o].res = "" THEN [n EXCEPT !.op[o].res = r] ELSE n
User(kind) == kind \in ACTS /\ net.bud > 0 /\ ~net.fini
B(n) == [n EXCEPT !.bud = @ - 1]
Send(n, x, p) == [n EXCEPT !.ep[x].q = Append(@, p)]
Base(x) == [c |-> C, k |-> x[1], d |-> x[2]]

(*************************** actions of the users **************************)
UWrite(x) ==
    /\ User("write")
    /\ LET o == net.no
           q == net.ep[x]
           len == 24
           es == <<E("w.call", Base(x) @@ [o |-> o, off |-> q.wn, len |-> len]),
                   E("w.ret", IF q.fin THEN [o |-> o, err |-> "eof", n |-> 0] ELSE [o |-> o, err |-> "ok", n |-> len])>>
           n1 == [B(net) EXCEPT !.no = @ + 1]
       IN Step(IF q.fin THEN n1
               ELSE Send([n1 EXCEPT !.ep[x].wn = @ + len], x, [ty |-> "raw", k |-> x[1], off |-> q.wn, len |-> len]),
               es, [a |-> "write", k |-> x[1], d |-> x[2], o |-> o, len |-> len])

URead(x) ==
    /\ User("read")
    /\ ~\E p \in DOMAIN net.op : net.op[p].kind = "r" /\ net.op[p].x = x
    /\ LET o == net.no IN
       Step(NewOpn(B(net), [kind |-> "r", x |-> x, dl |-> net.ep[x].dlr]), <<E("r.call", Base(x) @@ [o |-> o, len |-> 16])>>,
            [a |-> "read", k |-> x[1], d |-> x[2], o |-> o, len |-> 16])

\* which: read and write deadlines don't concern each other
USetDl(x, which, rel) ==
    /\ User("dl")
    /\ LET o == net.no
           at == IF rel = 0 THEN INF ELSE net.now + rel
           n1 == [B(net) EXCEPT !.no = @ + 1, !.ep[x].dlr = IF which = "w" /\ BUG # "wdl" THEN @ ELSE at,
                                              !.ep[x].dlw = IF which = "r" THEN @ ELSE at]
       IN Step(n1, <<E("dl.call", Base(x) @@ [o |-> o, which |-> which, at |-> at]), E("dl.ret", [o |-> o, err |-> "ok"])>>,
               [a |-> "dl", k |-> x[1], d |-> x[2], o |-> o, which |-> which, lim |-> rel])

UPub(x, mode, rel) ==
    /\ User(mode)
    /\ LET o == net.no
           q == net.ep[x]
           call == E("p.call", Base(x) @@ [o |-> o, mode |-> IF mode = "pub" THEN "sync" ELSE mode, data |-> Str(o), topic |-> "t",
                                           cust |-> "c", lim |-> At1(rel), home |-> x[1]])
           ret(err) == E("p.ret", [o |-> o, err |-> err, txt |-> ""])
           lab == [a |-> "pub", k |-> x[1], d |-> x[2], o |-> o, mode |-> IF mode = "pub" THEN "sync" ELSE mode, lim |-> rel]
           pkt == [ty |-> "msg", k |-> x[1], o |-> o]
           n1 == [B(net) EXCEPT !.no = @ + 1]
       IN CASE q.fin -> Step(n1, <<call, ret("eof")>>, lab)
            [] mode = "amo" -> Step(Send(n1, x, pkt), <<call, ret("ok")>>, lab)
            [] mode = "async" -> Step(Send(NewOpn(B(net), [kind |-> "pa", x |-> x, lim |-> At1(rel)]), x, pkt), <<call, ret("ok")>>, lab)
            [] OTHER -> Step(Send(NewOpn(B(net), [kind |-> "p", x |-> x, lim |-> At1(rel)]), x, pkt), <<call>>, lab)

URecv(x, rel) ==
    /\ User("recv")
    /\ ~\E p \in DOMAIN net.op : net.op[p].kind = "m" /\ net.op[p].x = x
    /\ LET o == net.no IN
       Step(NewOpn(B(net), [kind |-> "m", x |-> x, lim |-> At1(rel)]), <<E("m.rcall", Base(x) @@ [o |-> o, lim |-> At1(rel)])>>,
            [a |-> "recv", k |-> x[1], d |-> x[2], o |-> o, lim |-> rel])

\* net.ans: messages received and not answered, and where
UAns(m, kind) ==
    /\ User("ans") /\ m \in DOMAIN net.ans
    /\ LET x == net.ans[m]
           n1 == [B(net) EXCEPT !.ans = Del(@, {m})]
           es == <<E("m.ans", [m |-> m, kind |-> kind, txt |-> IF kind = "done" THEN "" ELSE "app:" \o Str(m)])>>
       IN Step(IF net.ep[x].fin THEN n1 ELSE Send(n1, x, [ty |-> "mack", k |-> x[1], o |-> m, kind |-> kind]), es,
               [a |-> "ans", m |-> m, kind |-> kind])

UReg(x, m) ==
    /\ User("reg")
    /\ LET o == net.no
           q == net.ep[x]
           fn == "f" \o Str(o)
           call == E("reg.call", Base(x) @@ [o |-> o, method |-> m, fn |-> fn])
           lab == [a |-> "reg", k |-> x[1], d |-> x[2], o |-> o, method |-> m, fn |-> fn]
       IN IF q.fin THEN Step([B(net) EXCEPT !.no = @ + 1], <<call, E("reg.ret", [o |-> o, err |-> "eof"])>>, lab)
          ELSE Step(Send([NewOpn(B(net), [kind |-> "reg", x |-> x, m |-> m]) EXCEPT !.ep[x].fns = Put(@, m, fn)], x,
                         [ty |-> "reg", k |-> x[1], o |-> o, m |-> m]), <<call>>, lab)

UHij(x, mode) ==
    /\ User("hij")
    /\ LET o == net.no
           fn == "j" \o Str(o)
           h == [fn |-> fn, pm |-> IF mode = "all" THEN <<>> ELSE <<"a", "ab">>, mode |-> mode]
       IN Step([B(net) EXCEPT !.no = @ + 1, !.ep[x].hij = <<h>>],
               <<E("hij.call", Base(x) @@ [o |-> o] @@ h), E("hij.ret", [o |-> o, err |-> "ok"])>>,
               [a |-> "hij", k |-> x[1], d |-> x[2], o |-> o, fn |-> fn, mode |-> mode])

UCall(x, m, async, rel) ==
    /\ User(IF async THEN "acall" ELSE "call")
    /\ LET o == net.no
           q == net.ep[x]
           call == E("q.call", Base(x) @@ [o |-> o, method |-> m, data |-> Str(o), cust |-> "c", async |-> async, lim |-> At1(rel), home |-> x[1]])
           ret(err) == E("q.ret", [o |-> o, err |-> err, txt |-> "", data |-> "", cust |-> ""])
           lab == [a |-> "call", k |-> x[1], d |-> x[2], o |-> o, method |-> m, async |-> async, lim |-> rel]
           n1 == [B(net) EXCEPT !.no = @ + 1]
       IN CASE q.fin -> Step(n1, <<call, ret("eof")>>, lab)
            [] ~q.fin /\ CHK /\ m \notin q.rem -> Step(n1, <<call, ret("unreg")>>, lab)
            [] OTHER -> Step(Send(NewOpn(B(net), [kind |-> IF async THEN "qa" ELSE "q", x |-> x, m |-> m, lim |-> At1(rel)]), x,
                                  [ty |-> "req", k |-> x[1], o |-> o, m |-> m, lim |-> At1(rel)]),
                             <<call>> \o (IF async THEN <<ret("ok")>> ELSE <<>>), lab)

\* the handler of call o, which is in, returns
UOut(o, bad) ==
    /\ User("out") /\ o \in DOMAIN net.hs /\ net.hs[o].st = "in"
    /\ LET h == net.hs[o]
           es == <<E("h.out", [o |-> o, data |-> IF bad THEN "" ELSE "r" \o Str(o), cust |-> "rc", txt |-> IF bad THEN "app:h" ELSE ""])>>
       IN Step([B(net) EXCEPT !.hs[o].st = "out", !.hs[o].bad = bad], es, [a |-> "out", o |-> o, bad |-> bad])

UCancel(o) ==
    /\ User("cancel") /\ o \in DOMAIN net.op /\ net.op[o].kind \in {"q", "qa", "p", "pa", "m"} /\ net.op[o].res = ""
    /\ LET n1 == [B(net) EXCEPT !.op[o].res = "cancel"]
           k == net.op[o].kind
           x == net.op[o].x
       IN Step(IF k \in {"q", "qa"} /\ ~net.ep[x].fin THEN Send(n1, x, [ty |-> "cancel", k |-> x[1], o |-> o]) ELSE n1,
               <<E("cancel", [o |-> o])>>, [a |-> "cancel", o |-> o])

UOpen(d) ==
    /\ User("open") /\ net.nk + Cardinality({o \in DOMAIN net.op : net.op[o].kind = "open"}) < (IF PRE THEN 3 ELSE 2) + NSTREAMS
    /\ LET o == net.no
           call == E("open.call", [c |-> C, d |-> d, o |-> o, k |-> 0, meta |-> "m" \o Str(o), peer |-> "p" \o Str(o)])
           ret == E("open.ret", [c |-> C, d |-> d, o |-> o, k |-> 0, err |-> "other", meta |-> "", peer |-> "", cid |-> 0])
           lab == [a |-> "open", d |-> d, o |-> o]
       IN IF ~net.mux[d + 1] THEN Step([B(net) EXCEPT !.no = @ + 1], <<call, ret>>, lab)
          ELSE Step(Link(NewOpn(B(net), [kind |-> "open", d |-> d, dp |-> FALSE, k |-> 0]), d, [ty |-> "sess", o |-> o]),
                    <<call>>, lab)

UAcc(d) ==
    /\ User("acc")
    /\ ~\E p \in DOMAIN net.op : net.op[p].kind = "acc" /\ net.op[p].d = d
    /\ LET o == net.no IN
       Step(NewOpn(B(net), [kind |-> "acc", d |-> d]), <<E("acc.call", [c |-> C, d |-> d, o |-> o, k |-> 0])>>,
            [a |-> "acc", d |-> d, o |-> o])

UClose(x) ==
    /\ User("sclose") /\ x[1] # 1
    /\ LET o == net.no
           q == net.ep[x]
           n1 == [B(net) EXCEPT !.no = @ + 1, !.ep[x].ac = TRUE]
           es == <<E("sc.call", Base(x) @@ [o |-> o]), E("sc.ret", [o |-> o])>>
       IN Step(IF q.fin \/ q.ac THEN n1
               ELSE IF BUG = "directclose" THEN (IF q.cl THEN n1 ELSE [n1 EXCEPT !.ep[x].cl = TRUE, !.ep[x].pd = TRUE])
               ELSE Send(n1, x, [ty |-> "close", k |-> x[1]]), es, [a |-> "sclose", k |-> x[1], d |-> x[2], o |-> o])

\* End.Close: all dialogues dismiss
UEnd(d) ==
    /\ User("eclose")
    /\ LET o == net.no
           first == ~net.ec[d + 1]
           S == {x \in Eps : x[2] = d /\ net.ep[x].ph # "over"}
           n1 == NewOpn([B(net) EXCEPT !.ec[d + 1] = TRUE], [kind |-> "ec", d |-> d])
           n2 == [n1 EXCEPT !.ep = [x \in Eps |-> IF x \in S /\ ~net.ep[x].cl THEN [net.ep[x] EXCEPT !.cl = TRUE, !.pd = TRUE] ELSE net.ep[x]],
                            !.op = [p \in DOMAIN n1.op |-> IF n1.op[p].kind = "open" /\ n1.op[p].d = d THEN [n1.op[p] EXCEPT !.dp = TRUE] ELSE n1.op[p]],
                            !.eops[d + 1] = S \cup {<<0, p>> : p \in {y \in DOMAIN net.op : net.op[y].kind = "open" /\ net.op[y].d = d /\ net.op[y].res = ""}}]
       IN Step(IF first /\ net.mux[d + 1] THEN n2 ELSE n1, <<E("ec.call", [c |-> C, d |-> d, o |-> o, k |-> 0])>>,
               [a |-> "eclose", d |-> d, o |-> o])

UCut ==
    /\ User("cut") /\ ~net.cut /\ "dead" \notin {net.cph[1], net.cph[2]}
    /\ Step([B(net) EXCEPT !.cut = TRUE, !.link = <<(<<>>), (<<>>)>>], <<E("cut", [c |-> C])>>, [a |-> "cut"])

\* a limit strikes
CanExp(o) ==
    LET p == net.op[o] IN
    /\ p.lim # INF /\ p.res = ""
    /\ net.now >= (IF BUG = "early" THEN p.lim - TICK ELSE p.lim)
    /\ ~(BUG = "nolimit" /\ p.kind = "p")
ReadDl(o) == IF BUG = "nomove" THEN net.op[o].dl ELSE net.ep[net.op[o].x].dlr
Late1(o) == IF net.op[o].kind = "r" THEN ReadDl(o) # INF /\ net.now >= ReadDl(o) ELSE CanExp(o)
CanHexp(o) == net.hs[o].st = "in" /\ net.hs[o].ctx = "" /\ net.hs[o].lim # INF /\ net.now >= net.hs[o].lim /\ BUG # "noctx"
\* time passes, but doesn't pass over a limit without it striking
UTick ==
    /\ User("tick") /\ net.now < 3 * TICK
    /\ ~(\E o \in DOMAIN net.op : Late1(o) \/ (net.op[o].lim # INF /\ net.op[o].res # "")) /\ ~(\E o \in DOMAIN net.hs : CanHexp(o))
    /\ Step([B(net) EXCEPT !.now = @ + TICK], <<>>, [a |-> "tick"])

(*************************** internal steps ********************************)
IExp(o) == CanExp(o) /\ Step([net EXCEPT !.op[o].res = "timeout"], <<>>, [a |-> "i"])

DlgEv(d, what, k, meta) == E("dlg", [c |-> C, d |-> d, what |-> what, k |-> k, cid |-> 1, meta |-> meta])

\* dialogue x is over: the stream will finish
Over(n, x) == [n EXCEPT !.ep[x].ph = "over", !.ep[x].pd = FALSE]
OverEv(x) == IF x[1] = 1 \/ BUG = "nooff" THEN <<>> ELSE <<DlgEv(x[2], "dg.off", x[1], "?")>>

\* from the queue of the stream to the dialogue
CanFlush(x) == net.ep[x].q # <<>> /\ ~net.ep[x].fin
IFlush(x) ==
    /\ CanFlush(x)
    /\ LET p == Head(net.ep[x].q)
           n1 == [net EXCEPT !.ep[x].q = Tail(@)]
           q == net.ep[x]
       IN Step(CASE q.ph = "over" -> [n1 EXCEPT !.op = [o \in DOMAIN net.op |->
                      IF p.ty \in {"msg", "req", "reg"} /\ o = p.o /\ net.op[o].res = "" THEN [net.op[o] EXCEPT !.res = "other"] ELSE net.op[o]]]
                 [] q.ph # "over" /\ p.ty = "close" -> IF q.cl THEN n1 ELSE [n1 EXCEPT !.ep[x].cl = TRUE, !.ep[x].pd = TRUE]
                 [] OTHER -> Link(n1, x[2], p),
               <<>>, [a |-> "i"])

\* the dismiss of dialogue x goes out
CanDismiss(x) == net.ep[x].pd /\ net.ep[x].ph # "over"
IDismiss(x) ==
    /\ CanDismiss(x)
    /\ Step(Link([net EXCEPT !.ep[x].pd = FALSE, !.ep[x].ph = CASE @ = "live" -> "ds" [] @ = "dr" -> "ds" [] OTHER -> @],
                 x[2], [ty |-> "dis", k |-> x[1]]), <<>>, [a |-> "i"])

\* the stream of a dialogue which is over finishes; it exists once the user has it
CanFini(x) == net.ep[x].ph = "over" /\ ~net.ep[x].fin /\ net.ep[x].has
IFini(x) ==
    /\ CanFini(x)
    /\ Step([net EXCEPT !.ep[x].fin = TRUE, !.ep[x].q = <<>>,
                !.op = [o \in DOMAIN net.op |->
                    IF net.op[o].kind \in {"p", "pa", "q", "qa", "reg"} /\ net.op[o].x = x /\ net.op[o].res = "" /\ BUG # "nohub"
                    THEN [net.op[o] EXCEPT !.res = "other"] ELSE net.op[o]]], <<>>, [a |-> "i"])

\* a pending operation returns
RetEv(o, ev, r) == E(ev, [o |-> o] @@ r)
CanRet(o) ==
    LET p == net.op[o] IN
    CASE p.kind = "r" -> net.ep[p.x].raw # <<>> \/ net.ep[p.x].fin \/ Late1(o)
      [] p.kind = "m" -> p.res # "" \/ net.ep[p.x].msgs # <<>> \/ net.ep[p.x].fin
      [] p.kind = "acc" -> net.accq[p.d + 1] # <<>> \/ (~net.mux[p.d + 1] /\ BUG # "keepacc")
      [] p.kind = "ec" -> ~net.mux[p.d + 1]
      [] OTHER -> p.res # ""
IRet(o) ==
    /\ CanRet(o)
    /\ LET p == net.op[o]
           n1 == IF BUG = "again" /\ p.kind \in {"pa", "qa"} THEN net ELSE [net EXCEPT !.op = Del(@, {o})]
           lab(err) == [a |-> "ret", o |-> o, err |-> err]
           async == p.kind \in {"pa", "qa"}
       IN CASE p.kind = "r" ->
                 IF net.ep[p.x].raw # <<>>
                 THEN LET h == Head(net.ep[p.x].raw)
                          len == Min(16, h[2])
                      IN Step([n1 EXCEPT !.ep[p.x].raw = IF h[2] = len THEN Tail(@) ELSE <<<<h[1] + len, h[2] - len>>>> \o Tail(@)],
                              <<RetEv(o, "r.ret", [err |-> "ok", n |-> len, off |-> h[1]])>>, lab("ok"))
                 ELSE LET err == IF net.ep[p.x].fin THEN "eof" ELSE "timeout" IN
                      Step(n1, <<RetEv(o, "r.ret", [err |-> err, n |-> 0, off |-> 0])>>, lab(err))
            [] p.kind = "m" ->
                 IF p.res # "" THEN Step(n1, <<RetEv(o, "m.rret", [err |-> p.res, m |-> 0])>>, lab(p.res))
                 ELSE IF net.ep[p.x].msgs # <<>>
                 THEN LET m == Head(net.ep[p.x].msgs) IN
                      Step([n1 EXCEPT !.ep[p.x].msgs = Tail(@), !.ans = Put(@, m, p.x)],
                           <<RetEv(o, "m.rret", [err |-> "ok", m |-> m, data |-> Str(m), topic |-> "t", cust |-> "c", idok |-> TRUE])>>,
                           lab("ok"))
                 ELSE Step(n1, <<RetEv(o, "m.rret", [err |-> "eof", m |-> 0])>>, lab("eof"))
            [] p.kind = "acc" ->
                 IF net.accq[p.d + 1] # <<>>
                 THEN LET k == Head(net.accq[p.d + 1])[1]
                          oo == Head(net.accq[p.d + 1])[2]
                      IN Step([n1 EXCEPT !.accq[p.d + 1] = Tail(@), !.ep[<<k, p.d>>].has = TRUE],
                              <<RetEv(o, "acc.ret", [c |-> C, d |-> p.d, k |-> k, err |-> "ok", meta |-> "m" \o (IF BUG = "meta" THEN "" ELSE Str(oo)), peer |-> "p" \o Str(oo), cid |-> 1])>>,
                              lab("ok") @@ [k |-> k])
                 ELSE Step(n1, <<RetEv(o, "acc.ret", [c |-> C, d |-> p.d, k |-> 0, err |-> "eof", meta |-> "", peer |-> "", cid |-> 0])>>, lab("eof"))
            [] p.kind = "ec" -> Step(n1, <<RetEv(o, "ec.ret", [c |-> C, d |-> p.d])>>, lab("ok"))
            [] p.kind = "open" ->
                 IF p.res = "ok"
                 THEN Step([n1 EXCEPT !.ep[<<p.k, p.d>>].has = TRUE],
                           <<RetEv(o, "open.ret", [c |-> C, d |-> p.d, k |-> p.k, err |-> "ok", meta |-> "m" \o Str(o), peer |-> "p" \o Str(o), cid |-> 1])>>,
                           lab("ok") @@ [k |-> p.k])
                 ELSE Step(n1, <<RetEv(o, "open.ret", [c |-> C, d |-> p.d, k |-> 0, err |-> "other", meta |-> "", peer |-> "", cid |-> 0])>>, lab("other"))
            [] p.kind \in {"p", "pa"} ->
                 Step(n1, <<RetEv(o, IF async THEN "p.done" ELSE "p.ret", [err |-> p.res, txt |-> p.txt])>>, lab(p.res))
            [] p.kind = "reg" -> Step(n1, <<RetEv(o, "reg.ret", [err |-> p.res])>>, lab(p.res))
            [] OTHER ->
                 Step(n1, <<RetEv(o, IF async THEN "q.done" ELSE "q.ret",
                       [err |-> p.res, txt |-> p.txt, data |-> IF p.res = "ok" THEN "r" \o p.dat ELSE "", cust |-> IF p.res = "ok" THEN "rc" ELSE ""])>>,
                      lab(p.res))

\* a handler starts, its context ends, its response goes out
CanHin(o) == net.hs[o].st = "wait"
IHin(o) ==
    /\ CanHin(o)
    /\ LET h == net.hs[o] IN
       Step([net EXCEPT !.hs[o].st = "in"],
            <<E("h.in", Base(h.x) @@ [o |-> o, method |-> h.m, data |-> Str(o), cust |-> "c", fn |-> h.fn, ddl |-> h.lim, idok |-> TRUE])>>,
            [a |-> "hin", o |-> o])
CanHctx(o) == net.hs[o].st = "in" /\ (net.hs[o].ctx = "end" \/ CanHexp(o))
IHctx(o) ==
    /\ CanHctx(o)
    /\ Step([net EXCEPT !.hs[o].ctx = "told"], <<E("h.ctx", [o |-> o, err |-> IF net.hs[o].ctx = "end" THEN "cancel" ELSE "timeout"])>>, [a |-> "hctx", o |-> o])
CanRsp(o) == net.hs[o].st = "out"
IRsp(o) ==
    /\ CanRsp(o)
    /\ LET h == net.hs[o]
           n1 == [net EXCEPT !.hs = Del(@, {o})]
       IN Step(IF net.ep[h.x].ph = "over" THEN n1
               ELSE Link(n1, h.x[2], [ty |-> "rsp", k |-> h.x[1], o |-> o, r |-> IF h.bad THEN "app" ELSE "ok"]),
               <<>>, [a |-> "i"])

\* End.Close: the dialogues it knew are over, the multiplexer stops, the connection closes
StillOpen(y) == IF y[1] = 0 THEN y[2] \in DOMAIN net.op /\ net.op[y[2]].res = ""
                ELSE net.ep[y].ph # "over"
OverAll(n, d) == [n EXCEPT
    !.ep = [x \in DOMAIN n.ep |-> IF x[2] = d /\ n.ep[x].ph # "over" THEN [n.ep[x] EXCEPT !.ph = "over", !.pd = FALSE] ELSE n.ep[x]],
    !.op = [o \in DOMAIN n.op |-> IF n.op[o].kind = "open" /\ n.op[o].d = d /\ n.op[o].res = "" THEN [n.op[o] EXCEPT !.res = "other"] ELSE n.op[o]],
    !.mux[d + 1] = FALSE]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] <= z[1] IN <<x>> \o SeqOf(S \ {x})
OverAllEv(d) ==
    LET S == SeqOf({x \in Eps : x[2] = d /\ x[1] # 1 /\ net.ep[x].ph # "over"})
    IN [i \in DOMAIN S |-> DlgEv(d, "dg.off", S[i][1], "?")]
CanMux(d) == net.ec[d + 1] /\ net.mux[d + 1] /\ \A y \in net.eops[d + 1] : ~StillOpen(y)
IMux(d) ==
    /\ CanMux(d)
    /\ Step([OverAll(net, d) EXCEPT !.cpd[d + 1] = IF net.ccl[d + 1] THEN @ ELSE TRUE, !.ccl[d + 1] = TRUE], OverAllEv(d), [a |-> "i"])

CanDisc(d) == net.cpd[d + 1] /\ net.cph[d + 1] # "dead"
IDisc(d) ==
    /\ CanDisc(d)
    /\ Step(Link([net EXCEPT !.cpd[d + 1] = FALSE,
                     !.cph[d + 1] = CASE @ \in {"up", "recv"} -> "sent" [] OTHER -> @], d, [ty |-> "disc"]), <<>>, [a |-> "i"])

\* the connection of side d is over
Die(n, d) == OverAll([n EXCEPT !.cph[d + 1] = "dead"], d)
DieEv(d) == <<DlgEv(d, "conn.off", 0, "cm"), E("trc", [c |-> C, d |-> d])>> \o OverAllEv(d)
\* because the transport is gone
CanDie(d) == /\ net.cph[d + 1] # "dead"
             /\ \/ net.cut
                \/ net.cph[2 - d] = "dead" /\ net.link[2 - d] = <<>>
IDie(d) ==
    /\ CanDie(d) /\ Step(Die(net, d), DieEv(d), [a |-> "i"])

(*************************** a packet is delivered *************************)
\* what side d does with packet p
Known1(x) == x \in Eps /\ net.ep[x].ph # "over"
Crossed(x) == IF BUG = "cross" /\ \E y \in Eps : y[2] = x[2] /\ y # x /\ net.ep[y].ph # "over"
              THEN CHOOSE y \in Eps : y[2] = x[2] /\ y # x /\ net.ep[y].ph # "over" ELSE x
Deliver(d) ==
    /\ net.link[2 - d] # <<>> /\ net.cph[d + 1] # "dead" /\ ~net.cut
    /\ LET p == Head(net.link[2 - d])
           n0 == [net EXCEPT !.link[2 - d] = Tail(@)]
           x == <<IF "k" \in DOMAIN p THEN p.k ELSE 0, d>>
           lab == [a |-> "dlv", d |-> d, ty |-> p.ty, k |-> x[1]]
           up == net.cph[d + 1] = "up"
       IN
       CASE p.ty = "disc" ->
              LET ph == CASE net.cph[d + 1] = "half" -> "closed" [] OTHER -> "half"
                  n1 == Link([n0 EXCEPT !.cph[d + 1] = ph], d, [ty |-> "dack"])
              IN IF ph = "closed" THEN Step(Die(n1, d), DieEv(d), lab)
                 ELSE Step(IF net.ccl[d + 1] THEN n1 ELSE [n1 EXCEPT !.ccl[d + 1] = TRUE, !.cpd[d + 1] = TRUE], <<>>, lab)
         [] p.ty = "dack" ->
              IF net.cph[d + 1] = "half" THEN Step(Die(n0, d), DieEv(d), lab)
              ELSE Step([n0 EXCEPT !.cph[d + 1] = "half"], <<>>, lab)
         [] p.ty \notin {"disc", "dack"} /\ (~up \/ ~net.mux[d + 1]) -> Step(n0, <<>>, lab)
         [] up /\ net.mux[d + 1] /\ p.ty = "sess" ->
              LET k == net.nk
                  y == <<k, d>>
                  n1 == [n0 EXCEPT !.nk = @ + 1, !.ep = Put(@, y, Ep0(TRUE)), !.accq[d + 1] = Append(@, <<k, p.o>>)]
              IN Step(Link(n1, d, [ty |-> "sack", k |-> k, o |-> p.o]), <<DlgEv(d, "dg.on", k, "m" \o Str(p.o))>>, lab)
         [] up /\ net.mux[d + 1] /\ p.ty = "sack" ->
              IF p.o \notin DOMAIN net.op \/ net.op[p.o].res # "" THEN Step(n0, <<>>, lab)
              ELSE LET q == IF net.op[p.o].dp THEN [Ep0(FALSE) EXCEPT !.cl = TRUE, !.pd = TRUE] ELSE Ep0(FALSE)
                       n1 == [n0 EXCEPT !.ep = Put(@, x, q), !.op[p.o].res = "ok", !.op[p.o].k = p.k]
                   IN Step([n1 EXCEPT !.eops[d + 1] = IF <<0, p.o>> \in @ THEN (@ \ {<<0, p.o>>}) \cup {x} ELSE @], <<>>, lab)
         [] OTHER ->
              IF ~Known1(x) THEN Step(n0, <<>>, lab)
              ELSE
              LET q == net.ep[x] IN
              CASE p.ty = "dis" ->
                     LET ph == IF q.ph = "half" THEN "over" ELSE "half"
                         n1 == Link([n0 EXCEPT !.ep[x].ph = IF ph = "over" THEN @ ELSE ph], d, [ty |-> "dsack", k |-> p.k])
                     IN IF ph = "over" THEN Step(Over(n1, x), OverEv(x), lab)
                        ELSE Step(IF q.cl THEN n1 ELSE [n1 EXCEPT !.ep[x].cl = TRUE, !.ep[x].pd = TRUE], <<>>, lab)
                [] p.ty = "dsack" ->
                     IF q.ph = "half" THEN Step(Over(n0, x), OverEv(x), lab)
                     ELSE Step([n0 EXCEPT !.ep[x].ph = "half"], <<>>, lab)
                [] p.ty = "raw" -> Step([n0 EXCEPT !.ep[Crossed(x)].raw = Append(@, <<p.off, p.len>>)], <<>>, lab)
                [] p.ty = "msg" ->
                     LET n1 == [n0 EXCEPT !.ep[Crossed(x)].msgs = CASE BUG = "lifo" -> <<p.o>> \o @
                                                                   [] BUG = "twice" -> @ \o <<p.o, p.o>>
                                                                   [] OTHER -> Append(@, p.o)]
                     IN Step(IF BUG = "earlyack" THEN Link(n1, d, [ty |-> "mack", k |-> p.k, o |-> p.o, kind |-> "done"]) ELSE n1, <<>>, lab)
                [] p.ty = "mack" ->
                     LET o == IF BUG = "anyack" /\ \E y \in DOMAIN net.op : net.op[y].kind \in {"p", "pa"} /\ net.op[y].x = x
                              THEN CHOOSE y \in DOMAIN net.op : net.op[y].kind \in {"p", "pa"} /\ net.op[y].x = x ELSE p.o
                     IN Step(IF o \in DOMAIN net.op /\ net.op[o].res = ""
                             THEN [n0 EXCEPT !.op[o].res = IF p.kind = "done" THEN "ok" ELSE "app",
                                             !.op[o].txt = IF p.kind = "done" THEN "" ELSE "app:" \o Str(p.o)] ELSE n0, <<>>, lab)
                [] p.ty = "reg" ->
                     Step(Link([n0 EXCEPT !.ep[x].rem = IF BUG = "noreg" THEN @ ELSE @ \cup {p.m}], d, [ty |-> "rack", k |-> p.k, o |-> p.o]),
                          <<E("rr", [c |-> C, d |-> d, k |-> p.k, method |-> p.m, cid |-> 1])>>, lab)
                [] p.ty = "rack" -> Step(Res(n0, p.o, "ok"), <<>>, lab)
                [] p.ty = "req" ->
                     LET h == q.hij
                         app == h # <<>> /\ (LET g == h[1] IN
                                   \/ g.mode = "all"
                                   \/ g.mode = "match" /\ p.m \in {g.pm[i] : i \in DOMAIN g.pm}
                                   \/ g.mode = "non" /\ (BUG = "nonmatch" \/ p.m \notin {g.pm[i] : i \in DOMAIN g.pm}))
                         fn == IF app THEN h[1].fn ELSE At(q.fns, p.m, "none")
                     IN IF fn = "none" THEN Step(Link(n0, d, [ty |-> "rsp", k |-> p.k, o |-> p.o, r |-> "nosuch"]), <<>>, lab)
                        ELSE Step([n0 EXCEPT !.hs = Put(@, p.o, [st |-> "wait", x |-> x, m |-> p.m, fn |-> fn, ctx |-> "", bad |-> FALSE, lim |-> p.lim])], <<>>, lab)
                [] p.ty = "cancel" ->
                     Step(IF p.o \in DOMAIN net.hs THEN [n0 EXCEPT !.hs[p.o].ctx = IF @ = "" THEN "end" ELSE @] ELSE n0, <<>>, lab)
                [] OTHER -> \* rsp
                     LET o == IF BUG = "anyrsp" /\ \E y \in DOMAIN net.op : net.op[y].kind \in {"q", "qa"} /\ net.op[y].x = x
                              THEN CHOOSE y \in DOMAIN net.op : net.op[y].kind \in {"q", "qa"} /\ net.op[y].x = x ELSE p.o
                     IN Step(IF o \in DOMAIN net.op /\ net.op[o].res = ""
                             THEN [n0 EXCEPT !.op[o] = [net.op[o] EXCEPT !.res = p.r, !.txt = IF p.r = "app" THEN "app:h" ELSE ""] @@ [dat |-> Str(p.o)]]
                             ELSE n0, <<>>, lab)

(*************************** next ******************************************)
Internal ==
    \/ \E x \in Eps : IFlush(x) \/ IDismiss(x) \/ IFini(x)
    \/ \E o \in DOMAIN net.op : IRet(o) \/ IExp(o)
    \/ \E o \in DOMAIN net.hs : IHin(o) \/ IHctx(o) \/ IRsp(o)
    \/ \E d \in SIDES : IMux(d) \/ IDisc(d) \/ IDie(d)
Busy ==
    \/ \E x \in Eps : CanFlush(x) \/ CanDismiss(x) \/ CanFini(x)
    \/ \E o \in DOMAIN net.op : CanRet(o) \/ CanExp(o)
    \/ \E o \in DOMAIN net.hs : CanHin(o) \/ CanHctx(o) \/ CanRsp(o)
    \/ \E d \in SIDES : CanMux(d) \/ CanDisc(d) \/ CanDie(d)

METHODS == IF "route" \in ACTS THEN {"a", "b"} ELSE {"a"}
Users ==
    \/ \E x \in Ends : \/ UWrite(x) \/ URead(x) \/ UClose(x)
                       \/ \E rel \in RELS :
                            \/ URecv(x, rel)
                            \/ \E m \in {"pub", "async"} : UPub(x, m, rel)
                            \/ \E m \in METHODS : UCall(x, m, FALSE, rel) \/ UCall(x, m, TRUE, rel)
                       \/ UPub(x, "amo", 0)
                       \/ \E w \in {"r", "w", "b"}, rel \in {-100, 0, 100, 300} : USetDl(x, w, rel)
                       \/ \E m \in METHODS : UReg(x, m)
                       \/ \E m \in {"all", "match", "non"} : UHij(x, m)
    \/ \E m \in DOMAIN net.ans : UAns(m, "done") \/ UAns(m, "err")
    \/ \E o \in DOMAIN net.hs : UOut(o, FALSE) \/ UOut(o, TRUE)
    \/ \E o \in DOMAIN net.op : UCancel(o)
    \/ \E d \in SIDES : UOpen(d) \/ UAcc(d) \/ UEnd(d)
    \/ UCut
    \/ UTick

Idle == ~Busy /\ (net.link = <<(<<>>), (<<>>)>> \/ net.cut)
AllDead == net.cph[1] = "dead" /\ net.cph[2] = "dead"
\* all is quiet on a connection which lives: nothing due is missing
SeqLive(d) == LET S == SeqOf({x \in Eps : x[2] = d /\ net.ep[x].has /\ net.ep[x].ph # "over"}) IN [i \in DOMAIN S |-> S[i][1]]
Quiet == /\ Idle /\ ~AllDead /\ ~net.fini /\ net.bud = 0 /\ ~net.ec[1] /\ ~net.ec[2]
         /\ \A d \in SIDES : net.accq[d + 1] = <<>>
         /\ Step([net EXCEPT !.fini = TRUE],
                 <<E("quiet", [c |-> C, raw |-> \A x \in Eps : net.ep[x].raw = <<>>, msg |-> \A x \in Eps : net.ep[x].msgs = <<>>, prog |-> TRUE]),
                   E("list", [c |-> C, d |-> 0, ks |-> SeqLive(0)]), E("list", [c |-> C, d |-> 1, ks |-> SeqLive(1)])>>,
                 [a |-> "quiet", raw |-> \A x \in Eps : net.ep[x].raw = <<>>, msg |-> \A x \in Eps : net.ep[x].msgs = <<>>])
\* it is over: everything returned
Fin == /\ Idle /\ AllDead /\ ~net.fini
       /\ Step([net EXCEPT !.fini = TRUE], <<E("fin", [c |-> C, trc |-> TRUE])>>, [a |-> "fin"])
Fini == Quiet \/ Fin

Next == IF FINE THEN Internal \/ Users \/ (\E d \in SIDES : Deliver(d)) \/ Fini
        ELSE IF Busy THEN Internal
        ELSE Users \/ (\E d \in SIDES : Deliver(d)) \/ Fini
Spec == Init /\ [][Next]_vars

OK == ok
\* what the users get at the end: nothing pends without a reason
Stuck == net.bud = 0 /\ Idle /\ AllDead => net.fini \/ DOMAIN net.op = {}
\* a finished behaviour is a schedule for the driver
Emit == net.fini => Serialize(ToJson([chk |-> CHK, pre |-> PRE, sch |-> sch]) \o "\n", IOEnv.OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
View == <<net, mon, ok>>
=============================================================================
