--------------------------------- MODULE Wait ---------------------------------
(* WaitMap: the first value set for a key is given to all who wait for it and kept for cfg.ttl     *)
(* units; who waits is given 0 (kept like a value) cfg.rt units after the first of those who wait   *)
(* together began, or when the context ends.                                                        *)
(* d: key -> [v, t];  w: keys that are waited for -> units left.                                    *)
EXTENDS Obj

InitSt(cfg) == [d |-> Empty, w |-> Empty, stop |-> 0]
Waits(calls, k) == {c \in DOMAIN calls : calls[c].pc = "wait" /\ calls[c].ev.k = k}
Give(calls, k, v) == [c \in DOMAIN calls |-> IF c \in Waits(calls, k) THEN [calls[c] EXCEPT !.pc = "done", !.r = <<v>>] ELSE calls[c]]
Publish(cfg, s, k, v) == [s EXCEPT !.d = Put(@, k, [v |-> v, t |-> cfg.ttl]), !.w = Del(@, k)]

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "set" -> IF Has(s.d, e.k) THEN Finish(s, calls, c, <<>>)
                            ELSE Finish(Publish(cfg, s, e.k, e.v), Give(calls, e.k, e.v), c, <<>>)
         [] e.op = "wait" -> IF Has(s.d, e.k) THEN Finish(s, calls, c, <<s.d[e.k].v>>)
                             ELSE Out(IF Has(s.w, e.k) THEN s ELSE [s EXCEPT !.w = Put(@, e.k, cfg.rt)], Goto(calls, c, "wait"))
         [] e.op = "count" -> Finish(s, calls, c, <<Cardinality(DOMAIN s.d) + Cardinality(DOMAIN s.w)>>)
         [] e.op = "cancel" -> Finish([s EXCEPT !.stop = 1], calls, c, <<>>)

Internal(cfg, s, calls) ==
  UNION {Out(Publish(cfg, s, k, 0), Give(calls, k, 0)) : k \in {x \in DOMAIN s.w : s.w[x] = 0}}
  \cup UNION {Out([s EXCEPT !.d = Del(@, k)], calls) : k \in {x \in DOMAIN s.d : s.d[x].t = 0 \/ s.stop = 1}}
  \cup (IF s.stop = 1 THEN UNION {Out([s EXCEPT !.w = Del(@, k)], Give(calls, k, 0)) : k \in DOMAIN s.w} ELSE {})
OnEvent(cfg, s, calls, ev) == {}
Dec(n) == IF n > 0 THEN n - 1 ELSE 0
OnTick(cfg, s, calls) == [s EXCEPT !.w = [k \in DOMAIN s.w |-> Dec(s.w[k])], !.d = [k \in DOMAIN s.d |-> [s.d[k] EXCEPT !.t = Dec(@)]]]
Due(s) == (\E k \in DOMAIN s.w : s.w[k] = 0) \/ (\E k \in DOMAIN s.d : s.d[k].t = 0)
Overdue(cfg, s, calls) == Due(s) \/ (s.stop = 1 /\ (s.w # Empty \/ s.d # Empty))
Lax(cfg, s, calls) == Due(s) /\ s.stop = 0
MustGo(cfg, s, calls, c) == Started(calls, c)
Inv(cfg, s, calls) == /\ DOMAIN s.d \cap DOMAIN s.w = {}
                      /\ \A c \in DOMAIN calls : calls[c].pc = "wait" => Has(s.w, calls[c].ev.k)

C(rt, ttl) == [rt |-> rt, ttl |-> ttl]
McCfgs == {C(1, 2), C(2, 1), C(3, 1)}
McOps(cfg, s, calls) == {[op |-> "set", k |-> k, v |-> v] : k \in 0..1, v \in 1..2} \cup {[op |-> "wait", k |-> k] : k \in 0..1}
                        \cup {[op |-> "cancel"], [op |-> "count"]}
McOps2(cfg, s, calls) == {[op |-> "set", k |-> 0, v |-> v] : v \in 1..2} \cup {[op |-> "wait", k |-> 0], [op |-> "cancel"]}
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
