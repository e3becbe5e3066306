------------------------------- MODULE Response -------------------------------
(* ResponseMap: the first value set for a key is given to all who wait for it, now or later, until *)
(* the key is cleared; who waits longer than cfg.rt units after the key was first used, or until   *)
(* the key is cleared, is given 0.  Keys are cleared at the multiples of cfg.ct units, those that  *)
(* are older than cfg.ct units.                                                                     *)
(* h: key -> [v: the value (0: none), t: units to the timeout (-1: over), a: age in units,         *)
(* c: 2 it must be cleared now, 1 it may be (it is exactly cfg.ct old)].                            *)
(* A trace's quiescence shows that waiting calls did not move; a call that comes after the timeout *)
(* may wait for the value or be given 0 at once.                                                    *)
EXTENDS Obj

InitSt(cfg) == [h |-> Empty, now |-> 0, stop |-> 0]
New(cfg) == [v |-> 0, t |-> cfg.rt, a |-> 0, c |-> 0]
Waits(calls, k) == {c \in DOMAIN calls : calls[c].pc = "wait" /\ calls[c].ev.k = k}
Give(calls, k, v) == [c \in DOMAIN calls |-> IF c \in Waits(calls, k) THEN [calls[c] EXCEPT !.pc = "done", !.r = <<v>>] ELSE calls[c]]
Use(cfg, s, k) == IF Has(s.h, k) THEN s ELSE [s EXCEPT !.h = Put(@, k, New(cfg))]

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev
      u == Use(cfg, s, e.k)
      h == u.h[e.k] IN
  IF calls[c].pc = "wait" THEN IF s.h[e.k].t = -1 THEN Finish(s, calls, c, <<0>>) ELSE {}
  ELSE IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "set" -> IF h.v # 0 THEN Finish(u, calls, c, <<>>)
                            ELSE LET t == [u EXCEPT !.h[e.k].v = e.v] IN Finish(t, Give(calls, e.k, e.v), c, <<>>)
         [] e.op = "wait" -> IF h.v # 0 THEN Finish(u, calls, c, <<h.v>>) ELSE Out(u, Goto(calls, c, "wait"))
         [] e.op = "cancel" -> Finish([s EXCEPT !.stop = 1], calls, c, <<>>)

Internal(cfg, s, calls) ==
  UNION {Out([s EXCEPT !.h[k].t = -1], Give(calls, k, 0)) : k \in {x \in DOMAIN s.h : s.h[x].t = 0 /\ s.h[x].v = 0}}
  \cup UNION {Out([s EXCEPT !.h = Del(@, k)], Give(calls, k, 0)) : k \in {x \in DOMAIN s.h : s.h[x].c > 0}}
OnEvent(cfg, s, calls, ev) == {}

OnTick(cfg, s, calls) ==
  LET n == (s.now + 1) % cfg.ct
      Step(h) == LET a == h.a + 1 IN
                 [v |-> h.v, t |-> IF h.t > 0 THEN h.t - 1 ELSE h.t, a |-> IF a > cfg.ct THEN cfg.ct + 1 ELSE a,
                  c |-> IF n # 0 THEN 0 ELSE IF a > cfg.ct THEN 2 ELSE IF a = cfg.ct THEN 1 ELSE 0] IN
  [s EXCEPT !.now = n, !.h = [k \in DOMAIN s.h |-> Step(s.h[k])]]
Due(s) == \E k \in DOMAIN s.h : s.h[k].t = 0 /\ s.h[k].v = 0
Overdue(cfg, s, calls) == Due(s) \/ (s.stop = 0 /\ \E k \in DOMAIN s.h : s.h[k].c = 2)
Lax(cfg, s, calls) == Due(s)
MustGo(cfg, s, calls, c) == Started(calls, c)
Inv(cfg, s, calls) == \A c \in DOMAIN calls : calls[c].pc = "wait" => Has(s.h, calls[c].ev.k) /\ s.h[calls[c].ev.k].v = 0

C(rt, ct) == [rt |-> rt, ct |-> ct]
McCfgs == {C(1, 2), C(2, 1), C(3, 2)}
McOps(cfg, s, calls) == {[op |-> "set", k |-> k, v |-> v] : k \in 0..1, v \in 1..2} \cup {[op |-> "wait", k |-> k] : k \in 0..1} \cup {[op |-> "cancel", k |-> 0]}
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
