-------------------------------- MODULE Maps --------------------------------
(* SimpleMap and ShardMap: a linearizable map.  With cfg.sh > 1 shards, the calls on one key   *)
(* are still atomic, while Size and Clear visit the shards one after the other.  The value     *)
(* function of SetIfNotExistsWithFunc is called ("fn") only when the key is absent, and once.  *)
EXTENDS Obj

InitSt(cfg) == [m |-> Empty]

\* the shard function gives cfg.fa * k + cfg.fb, which may be any integer
Sh(cfg, k) == IF cfg.sh = 0 THEN 0 ELSE (cfg.fa * k + cfg.fb) % cfg.sh
Shards(cfg) == IF cfg.sh = 0 THEN {0} ELSE 0..(cfg.sh - 1)
Keys(cfg, s, i) == {k \in DOMAIN s.m : Sh(cfg, k) = i}
Zero == 0

Alone(calls, c) == \A d \in DOMAIN calls : d = c \/ calls[d].pc = "done"

\* calls that visit the shards keep [todo, n] in their x
Visit(cfg, s, calls, c, todo, n) ==
  LET e == calls[c].ev
      Step(now) ==
        LET rest == todo \ now
            ks == UNION {Keys(cfg, s, i) : i \in now}
            m == n + Cardinality(ks)
            s2 == IF e.op = "clear" THEN [s EXCEPT !.m = [k \in DOMAIN s.m \ ks |-> s.m[k]]] ELSE s
            r == CASE e.op = "size" -> <<m>> [] OTHER -> <<>>
        IN IF rest = {} THEN Finish(s2, calls, c, r)
           ELSE Out(s2, GotoX(calls, c, "visit", [todo |-> rest, n |-> m]))
  IN IF Alone(calls, c) THEN Step(todo) ELSE UNION {Step({i}) : i \in todo}

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev
      pc == calls[c].pc IN
  IF pc = "done" THEN {}
  ELSE IF e.op \in {"size", "clear"} THEN
         IF pc = "start" THEN Visit(cfg, s, calls, c, Shards(cfg), 0) ELSE Visit(cfg, s, calls, c, calls[c].x.todo, calls[c].x.n)
  ELSE CASE e.op = "get"  -> Finish(s, calls, c, IF Has(s.m, e.k) THEN <<s.m[e.k], 1>> ELSE <<Zero, 0>>)
         [] e.op = "has"  -> Finish(s, calls, c, <<B(Has(s.m, e.k))>>)
         [] e.op = "set"  -> Finish([s EXCEPT !.m = Put(@, e.k, e.v)], calls, c, <<>>)
         [] e.op = "del"  -> Finish([s EXCEPT !.m = Del(@, e.k)], calls, c, <<>>)
         [] e.op = "sine" -> IF Has(s.m, e.k) THEN Finish(s, calls, c, <<0>>)
                             ELSE Finish([s EXCEPT !.m = Put(@, e.k, e.v)], calls, c, <<1>>)
         [] e.op = "sinef" -> IF Has(s.m, e.k) THEN Finish(s, calls, c, <<s.m[e.k], 0>>) ELSE {}

OnEvent(cfg, s, calls, ev) ==
  IF ev.e = "fn" /\ ev.c \in DOMAIN calls /\ Started(calls, ev.c)
  THEN LET e == calls[ev.c].ev IN
       IF e.op = "sinef" /\ ~Has(s.m, e.k)
       THEN IF Has(e, "p") THEN Finish(s, calls, ev.c, <<-1>>)  \* the function panics: nothing is stored
            ELSE Finish([s EXCEPT !.m = Put(@, e.k, e.v)], calls, ev.c, <<e.v, 1>>)
       ELSE {}
  ELSE {}

Internal(cfg, s, calls) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE
Inv(cfg, s, calls) == TRUE

McCfgs == {[sh |-> 0], [sh |-> 2, fa |-> 1, fb |-> 0], [sh |-> 2, fa |-> -1, fb |-> -4]}
McKeys == 0..1
McOps(cfg, s, calls) == {[op |-> o, k |-> k] : o \in {"get", "has", "del"}, k \in McKeys}
                 \cup {[op |-> o, k |-> k, v |-> v] : o \in {"set", "sine", "sinef"}, k \in McKeys, v \in 0..1}
                 \cup {[op |-> "sinef", k |-> 0, v |-> 1, p |-> 1]}
                 \cup {[op |-> "size"]} \cup (IF cfg.sh > 0 THEN {[op |-> "clear"]} ELSE {})
McEvents(cfg, s, calls) == {[e |-> "fn", c |-> c] : c \in DOMAIN calls}
McBound(cfg, s) == TRUE
=============================================================================
