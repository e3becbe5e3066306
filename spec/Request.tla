------------------------------- MODULE Request -------------------------------
(* RequestMap: for every key at most one request is under way; its result is given to all who     *)
(* wait and kept for cfg.ttl units (cfg.init: the results known from the start, in order, as       *)
(* <<key, value, error>>).  m: key -> [v, err, t].  fl: key -> the state of the request under way: *)
(* new (the function is to be called), run (x: by which call it was given), ret (its result x is   *)
(* still to be handed out).                                                                        *)
(* A call "to" runs a function with a timeout of cfg.d units of its own; f: its functions that     *)
(* are to run or run, tm: the units left to each of these calls.                                   *)
EXTENDS Obj

InitSt(cfg) == [m |-> [k \in {cfg.init[i][1] : i \in DOMAIN cfg.init} |->
                         LET i == Max({j \in DOMAIN cfg.init : cfg.init[j][1] = k}) IN [v |-> cfg.init[i][2], err |-> cfg.init[i][3], t |-> cfg.ttl]],
                fl |-> Empty, f |-> Empty, tm |-> Empty, stop |-> 0]
Res(e, v, err) == IF e.op = "goc" THEN <<v>> ELSE <<v, err>>
Waiting(calls, k) == {c \in DOMAIN calls : calls[c].pc = "wait" /\ calls[c].ev.k = k}
\* all who wait for the key are given the result
Hand(calls, k, v, err) == [c \in DOMAIN calls |-> IF c \in Waiting(calls, k) THEN [calls[c] EXCEPT !.pc = "done", !.r = Res(calls[c].ev, v, err)] ELSE calls[c]]
Timeout == -1

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev
      pc == calls[c].pc IN
  IF pc = "start" THEN
    CASE e.op \in {"goc", "goce"} ->
           IF Has(s.m, e.k) THEN Finish(s, calls, c, Res(e, s.m[e.k].v, s.m[e.k].err))
           ELSE IF Has(s.fl, e.k) THEN Out(s, Goto(calls, c, "wait"))
           ELSE Out([s EXCEPT !.fl = Put(@, e.k, [pc |-> "new", x |-> c])], Goto(calls, c, "wait"))
      [] e.op = "to" -> Out([s EXCEPT !.f = Put(@, c, "new"), !.tm = Put(@, c, e.d)], Goto(calls, c, "busy"))
      [] e.op = "count" -> Finish(s, calls, c, <<Cardinality(DOMAIN s.m) + Cardinality(DOMAIN s.fl)>>)
      [] e.op = "cancel" -> Finish([s EXCEPT !.stop = 1], calls, c, <<>>)
      [] e.op = "open" -> Finish(s, calls, c, <<>>)
  ELSE IF pc = "busy" /\ s.tm[c] = 0 THEN Finish([s EXCEPT !.tm = Del(@, c)], calls, c, <<0, Timeout>>)
  ELSE IF pc = "got" THEN Finish([s EXCEPT !.tm = Del(@, c)], calls, c, calls[c].x)
                          \cup (IF s.tm[c] = 0 THEN Finish([s EXCEPT !.tm = Del(@, c)], calls, c, <<0, Timeout>>) ELSE {})
  ELSE {}

Internal(cfg, s, calls) ==
  UNION {Out([s EXCEPT !.m = Del(@, k)], calls) : k \in {x \in DOMAIN s.m : s.m[x].t = 0}}
  \cup UNION {LET x == s.fl[k].x IN
              Out([s EXCEPT !.fl = Del(@, k), !.m = Put(@, k, [v |-> x[1], err |-> x[2], t |-> cfg.ttl])], Hand(calls, k, x[1], x[2])) :
              k \in {y \in DOMAIN s.fl : s.fl[y].pc = "ret"}}

OnEvent(cfg, s, calls, ev) ==
  CASE ev.e = "lb" ->  \* the function of call c is called
         IF Has(s.f, ev.c) THEN IF s.f[ev.c] = "new" THEN Out([s EXCEPT !.f[ev.c] = "run"], calls) ELSE {}
         ELSE UNION {Out([s EXCEPT !.fl[k].pc = "run"], calls) : k \in {y \in DOMAIN s.fl : y = ev.k /\ s.fl[y] = [pc |-> "new", x |-> ev.c]}}
    [] ev.e = "le" ->  \* and returns
         IF Has(s.f, ev.c)
         THEN IF s.f[ev.c] # "run" THEN {}
              ELSE LET t == [s EXCEPT !.f = Del(@, ev.c)] IN
                   Out(t, IF ev.c \in DOMAIN calls /\ calls[ev.c].pc = "busy" THEN GotoX(calls, ev.c, "got", <<ev.v, ev.err>>) ELSE calls)
         ELSE UNION {Out([s EXCEPT !.fl[k] = [pc |-> "ret", x |-> <<ev.v, ev.err>>]], calls) :
                     k \in {y \in DOMAIN s.fl : s.fl[y] = [pc |-> "run", x |-> ev.c]}}
    [] OTHER -> {}

OnTick(cfg, s, calls) == [s EXCEPT !.m = [k \in DOMAIN s.m |-> [s.m[k] EXCEPT !.t = IF @ > 0 THEN @ - 1 ELSE 0]],
                                   !.tm = [c \in DOMAIN s.tm |-> IF s.tm[c] > 0 THEN s.tm[c] - 1 ELSE 0]]
Due(s) == (s.stop = 0 /\ \E k \in DOMAIN s.m : s.m[k].t = 0) \/ (\E c \in DOMAIN s.tm : s.tm[c] = 0)
Overdue(cfg, s, calls) == \/ Due(s)
                          \/ \E k \in DOMAIN s.fl : s.fl[k].pc # "run"
                          \/ \E c \in DOMAIN s.f : s.f[c] = "new"
Lax(cfg, s, calls) == Due(s)
MustGo(cfg, s, calls, c) == CASE calls[c].pc = "wait" -> s.fl[calls[c].ev.k].pc # "run"
                              [] calls[c].pc = "busy" -> s.tm[c] = 0
                              [] OTHER -> TRUE
Inv(cfg, s, calls) ==
  /\ DOMAIN s.m \cap DOMAIN s.fl = {}
  /\ \A c \in DOMAIN calls : calls[c].pc = "wait" => Has(s.fl, calls[c].ev.k)
  /\ \A c \in DOMAIN calls : calls[c].pc \in {"busy", "got"} => Has(s.tm, c)
  /\ \A k \in DOMAIN s.m : s.m[k].t \in 0..cfg.ttl

C(ttl, init) == [ttl |-> ttl, init |-> init]
McCfgs == {C(1, <<>>), C(2, <<<<0, 5, 0>>>>)}
McCfgs1 == {C(2, <<<<0, 5, 0>>>>)}
McOps(cfg, s, calls) == {[op |-> o, k |-> k] : o \in {"goc", "goce"}, k \in 0..1} \cup {[op |-> "count"], [op |-> "cancel"]}
McOpsTo(cfg, s, calls) == {[op |-> "to", k |-> 0, d |-> d] : d \in 1..2} \cup {[op |-> "goce", k |-> 0]}
Running(s) == {s.fl[k].x : k \in {y \in DOMAIN s.fl : s.fl[y].pc \in {"new", "run"}}} \cup DOMAIN s.f
McEvents(cfg, s, calls) == {[e |-> "lb", k |-> k, c |-> c] : k \in 0..1, c \in Running(s)} \cup {[e |-> "le", c |-> c, v |-> 1, err |-> er] : c \in Running(s), er \in 0..1}
\* identifiers of calls are used again: not while a function of an earlier call runs
McBound(cfg, s) == DOMAIN s.f \ DOMAIN s.tm = {}
=============================================================================
