------------------------------- MODULE UniqSet -------------------------------
(* StructUniqSet: a set of values told apart by a build function (cfg.fn = 1: values that agree   *)
(* modulo cfg.mod are the same; cfg.fn = 0: all are different), with a lifetime of cfg.ttl units. *)
(* The value cfg.bad cannot be told (the build function fails).  m: class -> units left.          *)
EXTENDS Obj

InitSt(cfg) == [m |-> Empty, stop |-> 0]
Class(cfg, v) == IF cfg.fn = 1 THEN v % cfg.mod ELSE v
Bad(cfg, v) == v = cfg.bad

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev
      k == Class(cfg, e.v)
      in == Has(s.m, k) IN
  IF ~Started(calls, c) THEN {}
  ELSE IF e.op \in {"add", "has", "rem"} /\ Bad(cfg, e.v) THEN Finish(s, calls, c, <<0, 1>>)
  ELSE CASE e.op = "add"    -> Finish(IF in THEN s ELSE [s EXCEPT !.m = Put(@, k, cfg.ttl)], calls, c, <<B(~in), 0>>)
         [] e.op = "has"    -> Finish(s, calls, c, <<B(in), 0>>)
         [] e.op = "rem"    -> Finish([s EXCEPT !.m = Del(@, k)], calls, c, <<B(in), 0>>)
         [] e.op = "count"  -> Finish(s, calls, c, <<Cardinality(DOMAIN s.m)>>)
         [] e.op = "cancel" -> Finish([s EXCEPT !.stop = 1], calls, c, <<>>)

Internal(cfg, s, calls) == UNION {Out([s EXCEPT !.m = Del(@, k)], calls) : k \in {x \in DOMAIN s.m : s.m[x] = 0}}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == [s EXCEPT !.m = [k \in DOMAIN s.m |-> IF s.m[k] > 0 THEN s.m[k] - 1 ELSE 0]]
\* once the context has ended nothing expires any more (or it may)
Overdue(cfg, s, calls) == s.stop = 0 /\ \E k \in DOMAIN s.m : s.m[k] = 0
Lax(cfg, s, calls) == Overdue(cfg, s, calls)
MustGo(cfg, s, calls, c) == TRUE
Inv(cfg, s, calls) == \A k \in DOMAIN s.m : s.m[k] \in 0..cfg.ttl /\ (cfg.fn = 1 => k < cfg.mod) /\ ~(cfg.fn = 0 /\ k = cfg.bad)

C(fn, mod, ttl, bad) == [fn |-> fn, mod |-> mod, ttl |-> ttl, bad |-> bad]
McCfgs == {C(0, 0, 2, 9), C(1, 2, 1, 9), C(1, 2, 3, 2)}
McOps(cfg, s, calls) == {[op |-> o, v |-> v] : o \in {"add", "has", "rem"}, v \in 0..2} \cup {[op |-> "count", v |-> 0], [op |-> "cancel", v |-> 0]}
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
