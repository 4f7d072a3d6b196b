-------------------------------- MODULE Redial --------------------------------
(***************************************************************************)
(* The design of a retrying End, in product with the monitor Retry: one    *)
(* End in use, a recovery which runs when it's lost (close the old one,    *)
(* dial, tell the application, restore the registrations, tell it again),  *)
(* registrations which run at the same time, operations which are repeated *)
(* after a recovery, and Close.                                            *)
(* BUG seeds a fault, to see that the product finds it.                    *)
(***************************************************************************)
EXTENDS Retry
CONSTANTS CUTS,     \* connections which are lost
          FAILS,    \* dials which fail
          REGS,     \* registrations, all of one method
          OPS,      \* calls
          BUG

VARIABLES h, s, ok
vars == <<h, s, ok>>
M == "m"
RECURSIVE Run(_, _, _)
Run(m, good, es) == IF es = <<>> \/ ~good THEN <<m, good>> ELSE Run(Ap(m, Head(es)), Ok(m, Head(es)), Tail(es))
Step(h1, es) == LET r == Run(s, TRUE, es) IN h' = h1 /\ s' = r[1] /\ ok' = r[2]
E(ev, r) == [ev |-> ev, t |-> IF s.st = "closed" THEN 1000 ELSE 0] @@ r

\* pc of the recovery: new0 (the first dial) no close dial on restore re; done: closed
Init == /\ h = [pc |-> "new0", open |-> TRUE, cur |-> 0, n |-> 0, alive |-> EMPTY, fn |-> EMPTY, off |-> {},
                tab |-> 0, todo |-> FALSE, reg |-> EMPTY, op |-> EMPTY, nr |-> 0, no |-> 0, cuts |-> CUTS, fails |-> FAILS, closing |-> FALSE, nodial |-> FALSE, fini |-> FALSE, probed |-> FALSE]
        /\ LET r == Run(S0, TRUE, <<[ev |-> "reset"], [ev |-> "new", t |-> 0]>>) IN s = r[1] /\ ok = r[2]

Alive1(c) == c \in DOMAIN h.alive /\ h.alive[c]
Lost(c) == c \in DOMAIN h.alive /\ ~h.alive[c]

\* a dial, and the handshake: the server has the connection
Dial ==
    /\ h.pc \in {"new0", "dial"}
    /\ LET c == h.n + 1
           d == <<E("dial", [c |-> c])>>
       IN \/ /\ h.open \/ BUG = "reborn"
             /\ Step([h EXCEPT !.n = c, !.pc = IF h.pc = "new0" THEN "new1" ELSE "got", !.alive = Put(@, c, TRUE), !.fn = Put(@, c, 0)],
                     d \o <<E("dial.ret", [c |-> c, ok |-> TRUE]), E("s.up", [c |-> c])>>)
          \/ /\ h.fails > 0 /\ h.pc = "dial" /\ h.open
             /\ Step([h EXCEPT !.n = c, !.fails = @ - 1], d \o <<E("dial.ret", [c |-> c, ok |-> FALSE])>>)
          \/ /\ ~h.open /\ BUG # "reborn" /\ Step([h EXCEPT !.pc = "done"], <<>>)
\* the first one is there
New == /\ h.pc = "new1"
       /\ Step([h EXCEPT !.cur = h.n, !.pc = "no"], <<E("d.on", [c |-> h.n]), E("new.ret", [ok |-> TRUE])>>)
\* it's taken into use; closed meanwhile: it has to go
Got == /\ h.pc = "got"
       /\ IF h.open \/ BUG = "leak"
          THEN Step([h EXCEPT !.cur = h.n, !.pc = "on"], <<>>)
          ELSE Step([h EXCEPT !.alive[h.n] = FALSE, !.pc = "done"], <<E("s.down", [c |-> h.n])>>)
On == /\ h.pc = "on" /\ Step([h EXCEPT !.pc = "restore"], <<E("d.on", [c |-> h.cur])>>)
\* the registered function, unless a newer one got there meanwhile
Restore == /\ h.pc = "restore"
           /\ Step([h EXCEPT !.fn[h.cur] = IF BUG = "norestore" THEN @ ELSE IF BUG = "older" \/ @ < h.tab THEN h.tab ELSE @, !.pc = "re"], <<>>)
Re == /\ h.pc = "re"
      /\ Step([h EXCEPT !.pc = "no"], IF Lost(h.cur) THEN <<>> ELSE
              <<E("d.re", [c |-> h.cur])>> \o (IF BUG = "twice" THEN <<E("d.re", [c |-> h.cur])>> ELSE <<>>))
\* the loss is noticed: the old one is closed first
Notice == /\ h.pc \in (IF BUG = "eager" THEN {"no", "restore", "re"} ELSE {"no"}) /\ (Lost(h.cur) \/ (BUG = "eager" /\ h.cuts < CUTS)) /\ h.open
          /\ Step([h EXCEPT !.pc = "dial"], <<>>)
\* the delegate is told about a connection which ended
Offs == \E c \in DOMAIN h.alive :
          /\ Lost(c) /\ c \notin h.off /\ s.c[c].on = 1
          /\ Step([h EXCEPT !.off = @ \cup {c}], <<E("d.off", [c |-> c])>>)

Cut(c) == /\ h.cuts > 0 /\ Alive1(c)
          /\ Step([h EXCEPT !.cuts = @ - 1, !.alive[c] = FALSE], <<E("cut", [c |-> c])>>)

\* Register: at the End in use, then in the table; again when the End was lost meanwhile
Reg == /\ h.nr < REGS /\ h.cur # 0 /\ ~h.closing
       /\ LET v == h.nr + 1 IN
          Step([h EXCEPT !.nr = v, !.reg = Put(@, v, 0)], <<E("reg", [o |-> v, m |-> M, v |-> v])>>)
RegAt(v) == /\ v \in DOMAIN h.reg /\ h.reg[v] = 0 /\ Alive1(h.cur)
            /\ Step([h EXCEPT !.fn[h.cur] = IF @ > v THEN @ ELSE v, !.reg[v] = h.cur], <<>>)
RegTab(v) == /\ v \in DOMAIN h.reg /\ h.reg[v] # 0
             /\ IF h.reg[v] # h.cur /\ BUG # "oldreg" THEN Step([h EXCEPT !.reg[v] = 0], <<>>)
                ELSE Step([h EXCEPT !.reg = Del(@, {v}), !.tab = IF BUG = "notab" \/ @ > v THEN @ ELSE v], <<E("reg.ret", [o |-> v, ok |-> TRUE])>>)
RegEnd(v) == /\ v \in DOMAIN h.reg /\ ~h.open /\ Step([h EXCEPT !.reg = Del(@, {v})], <<E("reg.ret", [o |-> v, ok |-> FALSE])>>)

\* a call: answered, or repeated after the recovery, or it fails at the end
Op == /\ h.no < OPS /\ h.cur # 0 /\ ~h.closing
      /\ LET o == h.no + 1 IN Step([h EXCEPT !.no = o, !.op = Put(@, o, "try")], <<E("op", [o |-> o, what |-> "call", d |-> o])>>)
OpDo(o) == /\ o \in DOMAIN h.op /\ Alive1(h.cur) /\ h.op[o] = "try"
           /\ Step([h EXCEPT !.op[o] = "did"], IF BUG = "lie" THEN <<>> ELSE <<E("s.req", [d |-> o])>>)
OpRet(o) == /\ o \in DOMAIN h.op /\ h.op[o] = "did"
            /\ Step([h EXCEPT !.op = Del(@, {o})], <<E("op.ret", [o |-> o, ok |-> TRUE])>>)
OpEnd(o) == /\ o \in DOMAIN h.op /\ (~h.open \/ Lost(h.cur)) /\ BUG # "hang"
            /\ Step([h EXCEPT !.op = Del(@, {o})], <<E("op.ret", [o |-> o, ok |-> FALSE])>>)

Close == /\ ~h.closing /\ h.cur # 0
         /\ Step([h EXCEPT !.closing = TRUE, !.open = FALSE], <<E("close", EMPTY)>>)
CloseRet == /\ h.closing /\ h.open = FALSE /\ s.st = "closing"
            /\ Step([h EXCEPT !.alive[h.cur] = FALSE], (IF Alive1(h.cur) THEN <<E("s.down", [c |-> h.cur])>> ELSE <<>>) \o <<E("close.ret", EMPTY)>>)

\* all is quiet on a connection: the server calls the method
Working == h.pc \notin {"no", "done"} \/ (Lost(h.cur) /\ h.open /\ h.pc = "no") \/ \E c \in DOMAIN h.alive : Lost(c) /\ c \notin h.off /\ s.c[c].on = 1
Settle == /\ h.pc = "no" /\ h.open /\ ~h.probed /\ ~Working /\ Alive1(h.cur) /\ h.cuts = 0
          /\ Step([h EXCEPT !.probed = TRUE], <<E("settle", [c |-> h.cur]), E("probe", [o |-> 1, c |-> h.cur, m |-> M]),
                   E("probe.ret", [o |-> 1, v |-> IF h.fn[h.cur] = 0 THEN -1 ELSE h.fn[h.cur]])>>)
End == /\ h.closing /\ s.st = "closed" /\ ~h.fini /\ ~Working /\ DOMAIN h.reg = {} /\ (DOMAIN h.op = {} \/ BUG = "hang")
       /\ Step([h EXCEPT !.fini = TRUE], <<E("end", EMPTY)>>)

Next == \/ Dial \/ New \/ Got \/ On \/ Restore \/ Re \/ Notice \/ Offs \/ Reg \/ Op \/ Close \/ CloseRet \/ Settle \/ End
        \/ \E c \in DOMAIN h.alive : Cut(c)
        \/ \E v \in DOMAIN h.reg : RegAt(v) \/ RegTab(v) \/ RegEnd(v)
        \/ \E o \in DOMAIN h.op : OpDo(o) \/ OpRet(o) \/ OpEnd(o)
Spec == Init /\ [][Next]_vars
OK == ok
=============================================================================
