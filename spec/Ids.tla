---------------------------------- MODULE Ids ----------------------------------
(***************************************************************************)
(* Generators of identifiers, used by concurrent processes.  A functional  *)
(* monitor over the calls and returns of what they are asked:              *)
(*                                                                         *)
(* even, odd, inc: an id is never handed out twice, and has the parity.    *)
(* unique: an id is not handed out while it's held.                        *)
(* All: an id reserved before the call is not handed out.                  *)
(*                                                                         *)
(* Ids are numbered in the order of their appearance; the parity is with   *)
(* the event.  c is the generator: of the library, or one side of a        *)
(* connection (kind "pkt": packets, messages and requests; "stream").      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EMPTY == [x \in {} |-> 0]
Put(f, x, v) == (x :> v) @@ f
Del(f, X) == [y \in DOMAIN f \ X |-> f[y]]

C0(m) == [mode |-> m, used |-> {}, held |-> {}, res |-> {}]
S0 == [c |-> EMPTY,        \* generators
       p |-> EMPTY]        \* calls: <<generator, what was reserved>>

ParityOk(m, odd) == (m = "even" => ~odd) /\ (m = "odd" => odd)

GetOk(s, e) ==
    LET p == s.p[e.p] g == s.c[p[1]] IN
    /\ ~e.zero
    /\ ParityOk(g.mode, e.odd)
    /\ e.id \notin p[2]
    /\ IF g.mode = "unique" THEN e.id \notin g.held ELSE e.id \notin g.used
GetAp(s, e) ==
    LET c == s.p[e.p][1] IN
    [s EXCEPT !.p = Del(s.p, {e.p}), !.c[c].used = @ \cup {e.id}, !.c[c].held = @ \cup {e.id}]

\* what concurrent callers got first of a new generator: <<id, odd, zero>>, each
BurstOk(e) ==
    /\ \A k \in DOMAIN e.got : ~e.got[k][3] /\ ParityOk(e.mode, e.got[k][2])
    /\ Cardinality({e.got[k][1] : k \in DOMAIN e.got}) = Len(e.got)

Ok(s, e) ==
    CASE e.ev = "i.burst" -> BurstOk(e)
      [] e.ev = "i.get.ret" -> GetOk(s, e)
      [] e.ev \in {"reset", "i.new", "i.get", "i.res", "i.del"} -> TRUE
      [] OTHER -> FALSE
Ap(s, e) ==
    CASE e.ev = "reset" -> S0
      [] e.ev = "i.new" -> [s EXCEPT !.c = Put(s.c, e.c, C0(e.mode))]
      [] e.ev = "i.get" -> [s EXCEPT !.p = Put(s.p, e.p, <<e.c, s.c[e.c].res>>)]
      [] e.ev = "i.get.ret" -> GetAp(s, e)
      \* when it returned
      [] e.ev = "i.res" -> [s EXCEPT !.c[e.c].res = @ \cup {e.id}]
      \* when it's called; it takes back a reservation as well
      [] e.ev = "i.del" -> [s EXCEPT !.c[e.c].held = @ \ {e.id}, !.c[e.c].res = @ \ {e.id},
                                          !.p = [x \in DOMAIN s.p |-> IF s.p[x][1] = e.c THEN <<e.c, s.p[x][2] \ {e.id}>> ELSE s.p[x]]]
      [] OTHER -> s
=============================================================================
