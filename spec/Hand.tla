--------------------------------- MODULE Hand ---------------------------------
(***************************************************************************)
(* The design of the handshake, in product with the monitor Shake: clients *)
(* connect to servers of one process; the packets CONN and CONNACK, the    *)
(* goroutines which wait for them, the delegate's choices and refusals,    *)
(* and transports which are cut at any point.                              *)
(* BUG seeds a fault, to see that the product finds it.                    *)
(***************************************************************************)
EXTENDS Shake, Sequences, Json, IOUtils
CONSTANTS N,       \* clients
          CUTS,    \* how many transports may be cut
          CHOOSES, \* the ids the delegate chooses
          GEN, BUG

VARIABLES h, s, ok, sch
vars == <<h, s, ok, sch>>
Cs == 1..N
HasDlg(c) == h.dlg[c]

E(ev, c, r) == [ev |-> ev, c |-> c, t |-> 0] @@ r
RECURSIVE Run(_, _, _)
Run(m, good, es) == IF es = <<>> \/ ~good THEN <<m, good>> ELSE Run(Ap(m, Head(es)), Ok(m, Head(es)), Tail(es))
Step(h1, es, a) ==
    LET r == Run(s, TRUE, es) IN
    h' = h1 /\ s' = r[1] /\ ok' = r[2] /\ sch' = IF GEN /\ a.a # "i" THEN Append(sch, a) ELSE sch

\* cl: no (not begun) sent ret; wait: it's registered where the answer is looked for
\* sv: no, listen, gid, on, acked, up (returned); pk: what is on its way to the client
Init == \E dlg \in [Cs -> BOOLEAN] :
    LET h0 == [cl |-> [c \in Cs |-> "no"], wait |-> [c \in Cs |-> FALSE], sv |-> [c \in Cs |-> "no"],
               toS |-> [c \in Cs |-> FALSE], toC |-> [c \in Cs |-> <<>>], cut |-> [c \in Cs |-> FALSE],
               id |-> [c \in Cs |-> 0], next |-> 100, dlg |-> dlg, cuts |-> CUTS, fini |-> FALSE,
               soff |-> [c \in Cs |-> FALSE], bye |-> FALSE]
        es == [i \in 1..N |-> [ev |-> "conn", c |-> i, t |-> 0, meta |-> ToString(i), want |-> "0", dlg |-> dlg[i], sid |-> "0", late |-> 0]]
        r == Run(S0, TRUE, <<[ev |-> "reset"]>> \o es)
    IN h = h0 /\ s = r[1] /\ ok = r[2] /\ sch = <<>>

\* the client: waits for the answer, then sends, then returns
Dial(c) == /\ h.cl[c] = "no"
           /\ Step([h EXCEPT !.cl[c] = "begun", !.wait[c] = BUG # "latewait"], <<E("dial", c, EMPTY)>>, [a |-> "dial", c |-> c])
Conn(c) == /\ h.cl[c] = "begun"
           /\ Step([h EXCEPT !.cl[c] = "sent", !.toS[c] = ~h.cut[c]], <<>>, [a |-> "i"])
Late(c) == /\ h.cl[c] = "sent" /\ ~h.wait[c] /\ BUG = "latewait"
           /\ Step([h EXCEPT !.wait[c] = TRUE], <<>>, [a |-> "i"])
\* the answer is read; without a waiter it's thrown away
Ack(c) ==
    /\ h.toC[c] # <<>> /\ h.cl[c] = "sent" /\ ~h.cut[c]
    /\ LET p == Head(h.toC[c])
           h1 == [h EXCEPT !.toC[c] = Tail(@)]
       IN IF ~h.wait[c] THEN Step(h1, <<>>, [a |-> "i"])
          ELSE Step([h1 EXCEPT !.cl[c] = "ret"],
                    <<IF p.err = "" /\ (p.no => BUG = "empty") THEN E("dial.ret", c, [ok |-> TRUE, err |-> "", id |-> ToString(p.id), meta |-> ToString(c)])
                      ELSE E("dial.ret", c, [ok |-> FALSE, err |-> p.err, id |-> "0", meta |-> ""])>>, [a |-> "ack", c |-> c])
ClientLost(c) ==
    /\ h.cut[c] /\ h.cl[c] \in {"begun", "sent"}
    /\ Step([h EXCEPT !.cl[c] = "ret"], <<E("dial.ret", c, [ok |-> FALSE, err |-> "eof", id |-> "0", meta |-> ""])>>, [a |-> "i"])

\* the server
Acc(c) == /\ h.sv[c] = "no"
          /\ Step([h EXCEPT !.sv[c] = "listen"], <<E("acc", c, EMPTY)>>, [a |-> "acc", c |-> c])
Fresh == IF BUG = "sameid" THEN 100 ELSE h.next
Recv(c) ==
    /\ h.sv[c] = "listen" /\ h.toS[c] /\ ~h.cut[c]
    /\ LET h1 == [h EXCEPT !.toS[c] = FALSE] IN
       IF HasDlg(c)
       THEN Step([h1 EXCEPT !.sv[c] = "gid"], <<E("gid", c, [want |-> "0", meta |-> ToString(IF BUG = "meta" THEN 1 ELSE c)])>>, [a |-> "conn", c |-> c])
       ELSE Step([h1 EXCEPT !.sv[c] = "acked", !.id[c] = Fresh, !.next = @ + 1,
                            !.toC[c] = Append(@, [err |-> "", no |-> FALSE, id |-> Fresh])], <<>>, [a |-> "conn", c |-> c])
Refuse(h1, c, txt) == [h1 EXCEPT !.sv[c] = "refused", !.toC[c] = Append(@, [err |-> txt, no |-> TRUE, id |-> 0])]
\* the delegate chooses: 0 lets the server choose
Gid(c, i, no) ==
    /\ h.sv[c] = "gid"
    /\ \A d \in Cs : i # 0 => h.id[d] # i
    /\ LET txt == IF no = "empty" THEN "" ELSE "no!"
           es == <<E("gid.ret", c, [id |-> ToString(i), no |-> no # "", err |-> IF no = "" THEN "" ELSE txt])>>
           lab == [a |-> "gid", c |-> c, id |-> i, no |-> no]
       IN IF no # "" /\ BUG # "norefuse" THEN Step(Refuse(h, c, txt), es, lab)
          ELSE LET x == IF i = 0 THEN Fresh ELSE i
                   h1 == [h EXCEPT !.sv[c] = "on", !.id[c] = x, !.next = IF i = 0 THEN @ + 1 ELSE @]
               IN Step(h1, es \o <<E("on", c, [id |-> ToString(x), meta |-> ToString(c)])>>, lab)
On(c, no) ==
    /\ h.sv[c] = "on"
    /\ LET txt == IF no = "empty" THEN "" ELSE "no!"
           es == <<E("on.ret", c, [no |-> no # "", err |-> IF no = "" THEN "" ELSE txt])>>
           lab == [a |-> "on", c |-> c, no |-> no]
       IN IF no # "" THEN Step(Refuse(h, c, txt), es, lab)
          ELSE Step([h EXCEPT !.sv[c] = "acked", !.soff[c] = TRUE,
                              !.toC[c] = Append(@, [err |-> "", no |-> FALSE, id |-> h.id[c]])], es, lab)
AccRet(c) ==
    /\ h.sv[c] \in {"acked", "refused"}
    /\ IF h.sv[c] = "acked"
       THEN Step([h EXCEPT !.sv[c] = "up"], <<E("acc.ret", c, [ok |-> TRUE, id |-> ToString(h.id[c]), meta |-> ToString(c)])>>, [a |-> "accret", c |-> c])
       ELSE Step([h EXCEPT !.sv[c] = "over"], <<E("acc.ret", c, [ok |-> FALSE, id |-> "0", meta |-> ""])>>, [a |-> "accret", c |-> c])
\* the connection of the server is lost: offline, if it was online; also when Accept hasn't returned yet
ServerLost(c) ==
    /\ h.cut[c] /\ h.sv[c] \in {"listen", "acked", "up"}
    /\ LET off == IF h.soff[c] /\ (BUG # "nooff" \/ h.sv[c] = "up") THEN <<E("off", c, [id |-> ToString(h.id[c]), meta |-> ToString(c)])>> ELSE <<>>
           ret == IF h.sv[c] = "up" THEN <<>> ELSE <<E("acc.ret", c, [ok |-> FALSE, id |-> "0", meta |-> ""])>>
       IN Step([h EXCEPT !.sv[c] = "over", !.soff[c] = FALSE], off \o ret, [a |-> "i"])

Cut(c) == /\ ~h.cut[c] /\ h.cuts > 0 /\ h.cl[c] # "no" /\ h.sv[c] # "no"
          /\ Step([h EXCEPT !.cut[c] = TRUE, !.cuts = @ - 1, !.toS[c] = FALSE, !.toC[c] = <<>>], <<E("cut", c, EMPTY)>>, [a |-> "cut", c |-> c])

Work(c) == Conn(c) \/ Late(c) \/ Ack(c) \/ ClientLost(c) \/ Recv(c) \/ AccRet(c) \/ ServerLost(c)
Busy == \E c \in Cs : ENABLED Work(c)
\* all is done; what is up is brought down then
Settle == /\ ~h.bye /\ ~Busy /\ \A c \in Cs : h.cl[c] # "no" /\ h.sv[c] \notin {"no", "gid", "on"}
          /\ Step([h EXCEPT !.bye = TRUE, !.cut = [c \in Cs |-> TRUE]], <<[ev |-> "settle", t |-> 0]>> \o [i \in 1..N |-> E("cut", i, EMPTY)], [a |-> "settle"])
End == /\ h.bye /\ ~h.fini /\ ~Busy
       /\ Step([h EXCEPT !.fini = TRUE], <<[ev |-> "end", t |-> 0]>>, [a |-> "end"])
User == \E c \in Cs :
    \/ Dial(c) \/ Acc(c) \/ Cut(c)
    \/ \E i \in CHOOSES \cup {0} : Gid(c, i, "")
    \/ \E no \in {"txt", "empty"} : Gid(c, 0, no)
    \/ \E no \in {"", "txt", "empty"} : On(c, no)
Next == ((\E c \in Cs : Work(c)) \/ (~h.bye /\ User) \/ Settle \/ End)
Spec == Init /\ [][Next]_vars
OK == ok
Emit == h.fini => Serialize(ToJson([dlg |-> [c \in Cs |-> h.dlg[c]], sch |-> sch]) \o "\n", IOEnv.OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
View == <<h, s, ok>>
=============================================================================
