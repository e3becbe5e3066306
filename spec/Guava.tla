------------------------------- MODULE Guava -------------------------------
(* GuavaMap: a cache with optional capacity (cfg.max), write timeout (cfg.wt), read timeout     *)
(* (cfg.rt), load function (cfg.load), one load per key at a time (cfg.lock) and unload         *)
(* callback (cfg.unl).                                                                          *)
(*                                                                                              *)
(* m: key -> [v, t], t the units until the entry expires (-1: never).  q: the keys in order of  *)
(* insertion.  u: the key/value pairs that left and whose unload callback is still to be made,  *)
(* with multiplicity.  Loads and updates in progress are kept in calls.                         *)
EXTENDS Obj

\* stop = 1: the context of the map (cfg.ctx = 1: it was given one) has ended
InitSt(cfg) == [m |-> Empty, q |-> <<>>, u |-> Empty, stop |-> 0]

In(s, k) == k \in DOMAIN s.m
NewTtl(cfg) == IF cfg.wt > 0 THEN cfg.wt ELSE IF cfg.rt > 0 THEN cfg.rt ELSE -1
Entry(cfg, v) == [v |-> v, t |-> NewTtl(cfg)]

Leave(cfg, s, k) ==
  LET p == <<k, s.m[k].v>> IN
  [s EXCEPT !.m = Del(@, k), !.q = Without(@, k),
            !.u = IF cfg.unl = 1 THEN Put(@, p, (IF Has(@, p) THEN @[p] ELSE 0) + 1) ELSE @]
Insert(cfg, s, k, v) ==
  LET s1 == IF cfg.max > 0 /\ Cardinality(DOMAIN s.m) >= cfg.max THEN Leave(cfg, s, Head(s.q)) ELSE s
  IN [s1 EXCEPT !.m = Put(@, k, Entry(cfg, v)), !.q = Append(@, k)]
Write(cfg, s, k, v) == IF In(s, k) THEN [s EXCEPT !.m[k] = Entry(cfg, v)] ELSE Insert(cfg, s, k, v)
Touch(cfg, s, k) == IF cfg.rt > 0 /\ In(s, k) THEN [s EXCEPT !.m[k].t = cfg.rt] ELSE s
RECURSIVE LeaveAll(_, _)
LeaveAll(cfg, s) == IF s.m = Empty THEN s ELSE LeaveAll(cfg, Leave(cfg, s, CHOOSE k \in DOMAIN s.m : TRUE))
Pairs(s) == LET ks == Sorted(DOMAIN s.m) IN FlattenSeq([i \in 1..Len(ks) |-> <<ks[i], s.m[ks[i]].v>>])

\* the load of a key under way (decided, begun or finished, the result not stored yet)
Loading(calls, k) == \E d \in DOMAIN calls : calls[d].pc \in {"go", "load", "loaded"} /\ calls[d].ev.k = k
Updating(calls, k) == \E d \in DOMAIN calls : calls[d].pc \in {"upd", "store"} /\ calls[d].ev.k = k

Hit(cfg, s, calls, c, k) == Finish(Touch(cfg, s, k), calls, c, <<s.m[k].v, 0>>)

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev
      pc == calls[c].pc
      Ret(r) == Finish(s, calls, c, r) IN
  CASE pc = "start" ->
       (CASE e.op = "get"    -> IF In(s, e.k) THEN Hit(cfg, s, calls, c, e.k)
                                ELSE IF cfg.load = 0 THEN Ret(<<0, 0>>)
                                ELSE Out(s, Goto(calls, c, "want"))
          [] e.op = "has"    -> Finish(Touch(cfg, s, e.k), calls, c, <<B(In(s, e.k))>>)
          [] e.op = "hoc"    -> IF In(s, e.k) THEN Finish(Touch(cfg, s, e.k), calls, c, <<1>>)
                                ELSE Finish(Insert(cfg, s, e.k, e.v), calls, c, <<0>>)
          [] e.op = "set"    -> Finish(Write(cfg, s, e.k, e.v), calls, c, <<>>)
          [] e.op = "del"    -> Finish(IF In(s, e.k) THEN Leave(cfg, s, e.k) ELSE s, calls, c, <<>>)
          [] e.op = "clear"  -> Finish(LeaveAll(cfg, s), calls, c, <<>>)
          [] e.op = "size"   -> Ret(<<Cardinality(DOMAIN s.m)>>)
          [] e.op = "stored" -> Ret(Pairs(s))
          [] e.op = "cancel" -> Finish([s EXCEPT !.stop = cfg.ctx], calls, c, <<>>)
          [] e.op = "upd"    -> {})
    [] pc = "want" -> IF cfg.lock = 0 THEN IF In(s, e.k) THEN Hit(cfg, s, calls, c, e.k) ELSE {}
                      ELSE IF Loading(calls, e.k) THEN {}
                      ELSE IF In(s, e.k) THEN Hit(cfg, s, calls, c, e.k)
                      ELSE Out(s, Goto(calls, c, "go"))
    [] pc = "loaded" ->
         LET v == calls[c].x.v
             er == calls[c].x.err IN
         IF er # 0 THEN Ret(<<0, er>>)
         ELSE IF In(s, e.k) THEN Hit(cfg, s, calls, c, e.k)
         ELSE Finish(Insert(cfg, s, e.k, v), calls, c, <<v, 0>>)
    [] pc = "store" -> Finish(Write(cfg, s, e.k, calls[c].x), calls, c, <<calls[c].x>>)
    [] OTHER -> {}

OnEvent(cfg, s, calls, ev) ==
  CASE ev.e = "lb" ->  \* a load begins
         UNION {Out(s, GotoX(calls, c, "load", ev.i)) :
                c \in {d \in DOMAIN calls : calls[d].pc = (IF cfg.lock = 1 THEN "go" ELSE "want") /\ calls[d].ev.k = ev.k}}
    [] ev.e = "le" ->  \* and ends
         UNION {Out(s, GotoX(calls, c, "loaded", [v |-> ev.v, err |-> ev.err])) :
                c \in {d \in DOMAIN calls : calls[d].pc = "load" /\ calls[d].x = ev.i}}
    [] ev.e = "ub" ->  \* an update function is called
         IF ev.c \in DOMAIN calls /\ Started(calls, ev.c) /\ calls[ev.c].ev.op = "upd" /\ ~Updating(calls, calls[ev.c].ev.k)
         THEN Out(s, Goto(calls, ev.c, "upd")) ELSE {}
    [] ev.e = "ue" /\ ev.c \in DOMAIN calls /\ Has(calls[ev.c].ev, "p") ->  \* it panics: nothing is stored
         IF calls[ev.c].pc = "upd" THEN Finish(s, calls, ev.c, <<-1>>) ELSE {}
    [] ev.e = "ue" ->  \* and returns
         IF ev.c \in DOMAIN calls /\ calls[ev.c].pc = "upd" THEN Out(s, GotoX(calls, ev.c, "store", ev.v)) ELSE {}
    [] ev.e = "unload" ->
         LET p == <<ev.k, ev.v>> IN
         IF ~Has(s.u, p) THEN {}
         ELSE Out([s EXCEPT !.u = IF @[p] = 1 THEN Del(@, p) ELSE [@ EXCEPT ![p] = @ - 1]], calls)
    [] OTHER -> {}

Internal(cfg, s, calls) == UNION {Out(Leave(cfg, s, k), calls) : k \in {x \in DOMAIN s.m : s.m[x].t = 0}}
OnTick(cfg, s, calls) == [s EXCEPT !.m = [k \in DOMAIN s.m |-> [s.m[k] EXCEPT !.t = IF @ > 0 THEN @ - 1 ELSE @]]]
\* once the context has ended nothing expires any more (or it may)
Overdue(cfg, s, calls) == s.u # Empty \/ (s.stop = 0 /\ \E k \in DOMAIN s.m : s.m[k].t = 0)
Lax(cfg, s, calls) == \E k \in DOMAIN s.m : s.m[k].t = 0
MustGo(cfg, s, calls, c) == TRUE

Inv(cfg, s, calls) ==
  /\ cfg.max > 0 => Cardinality(DOMAIN s.m) <= cfg.max
  /\ IsInjective(s.q) /\ ToSet(s.q) = DOMAIN s.m
  /\ cfg.unl = 0 => s.u = Empty
  /\ cfg.lock = 1 => \A a, b \in DOMAIN calls : calls[a].pc \in {"go", "load", "loaded"} /\ calls[b].pc \in {"go", "load", "loaded"}
                                                 /\ calls[a].ev.k = calls[b].ev.k => a = b
  /\ \A k \in DOMAIN s.m : s.m[k].t <= Max({cfg.wt, cfg.rt}) /\ (cfg.wt <= 0 /\ cfg.rt <= 0 => s.m[k].t = -1)

Cfg(max, wt, rt, load, lock, unl) == [max |-> max, wt |-> wt, rt |-> rt, load |-> load, lock |-> lock, unl |-> unl, ctx |-> 1]
McCfgs == {Cfg(0, 0, 0, 0, 0, 0), Cfg(1, 0, 0, 0, 0, 1), Cfg(2, 0, 0, 0, 0, 0)}
McCfgsPlain == {Cfg(0, 0, 0, 0, 0, 0)}
McCfgsUpd == {Cfg(0, 0, 0, 0, 0, 0), Cfg(1, 0, 0, 0, 0, 0)}
McCfgsMax == {Cfg(1, 0, 0, 0, 0, 0), Cfg(2, 0, 0, 0, 0, 0)}
McCfgsTtl == {Cfg(0, 2, 0, 0, 0, 0), Cfg(0, 0, 2, 0, 0, 0), Cfg(0, 1, 2, 0, 0, 0), Cfg(1, 2, 1, 0, 0, 0)}
McCfgsLoad == {Cfg(0, 0, 0, 1, 0, 0), Cfg(0, 0, 0, 1, 1, 0), Cfg(1, 0, 0, 1, 1, 0)}
McCfgsUnl == {Cfg(1, 0, 0, 0, 0, 1), Cfg(0, 1, 0, 0, 0, 1), Cfg(2, 0, 1, 0, 0, 1)}
Ops(ks, keyed, valued, plain) ==
  {[op |-> o, k |-> k] : o \in keyed, k \in ks} \cup {[op |-> o, k |-> k, v |-> v] : o \in valued, k \in ks, v \in 1..2}
  \cup {[op |-> o] : o \in plain}
McOps(cfg, s, calls) == Ops(0..2, {"get", "has", "del"}, {"hoc", "set"}, {"clear", "size", "stored"})
McOps2(cfg, s, calls) == Ops(0..1, {"get", "has", "del"}, {"hoc", "set"}, {"clear", "size"})
McOpsTtl(cfg, s, calls) == Ops(0..1, {"get", "has", "del"}, {"hoc", "set"}, {"clear", "size", "cancel"})
McOpsUpd(cfg, s, calls) == Ops(0..1, {"get", "del", "upd"}, {"set"}, {"clear"}) \cup {[op |-> "upd", k |-> 0, p |-> 1]}
McOpsLoad(cfg, s, calls) == Ops(0..1, {"get", "del"}, {"set"}, {"size"})
McEvents(cfg, s, calls) ==
  {[e |-> "lb", k |-> calls[c].ev.k, i |-> c] : c \in {d \in DOMAIN calls : calls[d].pc \in {"want", "go"}}}
  \cup {[e |-> "le", i |-> calls[c].x, v |-> 1 - er, err |-> er] : c \in {d \in DOMAIN calls : calls[d].pc = "load"}, er \in 0..1}
  \cup {[e |-> "ub", c |-> c] : c \in {d \in DOMAIN calls : calls[d].ev.op = "upd"}}
  \cup {[e |-> "ue", c |-> c, v |-> 3] : c \in DOMAIN calls}
  \cup {[e |-> "unload", k |-> p[1], v |-> p[2]] : p \in DOMAIN s.u}
McBound(cfg, s) == \A p \in DOMAIN s.u : s.u[p] <= 1
=============================================================================
