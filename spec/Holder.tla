-------------------------------- MODULE Holder --------------------------------
(* HolderMap: the first Wait of a key makes a holder with an object; Waits of the key last until   *)
(* the holder is released (with an error or without), cfg.rt units have passed (Timeout) or the     *)
(* context ends (Ended); all are given the same.  A released holder is removed cfg.ttl units later. *)
(* h: key -> [o: the object, err, open: 1 until released, in: the release under way, t: units to    *)
(* the timeout, then to the removal].                                                               *)
EXTENDS Obj

Timeout == -1
Ended == -2
NotFound == -3
InitSt(cfg) == [h |-> Empty, stop |-> 0]
Waits(calls, k) == {c \in DOMAIN calls : calls[c].pc = "wait" /\ calls[c].ev.k = k}
Give(calls, k, r) == [c \in DOMAIN calls |-> IF c \in Waits(calls, k) THEN [calls[c] EXCEPT !.pc = "done", !.r = <<r>>] ELSE calls[c]]
Released(cfg, h, err) == [h EXCEPT !.open = 0, !.err = err, !.in = <<>>, !.t = cfg.ttl]
Send(s, k, err) == IF s.h[k].open = 1 /\ s.h[k].in = <<>> THEN [s EXCEPT !.h[k].in = <<err>>] ELSE s

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev
      in == Has(s.h, e.k) IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "wait" -> IF ~in THEN Out([s EXCEPT !.h = Put(@, e.k, [o |-> e.v, err |-> 0, open |-> 1, in |-> <<>>, t |-> cfg.rt])], Goto(calls, c, "wait"))
                             ELSE IF s.h[e.k].open = 0 THEN Finish(s, calls, c, <<s.h[e.k].err>>)
                             ELSE Out(s, Goto(calls, c, "wait"))
         [] e.op = "get" -> Finish(s, calls, c, IF in THEN <<s.h[e.k].o, s.h[e.k].err>> ELSE <<0, NotFound>>)
         [] e.op = "upd" -> IF in THEN Finish([s EXCEPT !.h[e.k].o = e.v], calls, c, <<0>>) ELSE Finish(s, calls, c, <<NotFound>>)
         [] e.op = "rel" -> IF in THEN Finish(Send(s, e.k, 0), calls, c, <<0>>) ELSE Finish(s, calls, c, <<NotFound>>)
         [] e.op = "err" -> IF in THEN Finish(Send(s, e.k, e.v), calls, c, <<0>>) ELSE Finish(s, calls, c, <<NotFound>>)
         [] e.op = "count" -> Finish(s, calls, c, <<Cardinality(DOMAIN s.h)>>)
         [] e.op = "cancel" -> Finish([s EXCEPT !.stop = 1], calls, c, <<>>)

Free(cfg, s, calls, k, err) == Out([s EXCEPT !.h[k] = Released(cfg, @, err)], Give(calls, k, err))
Internal(cfg, s, calls) ==
  UNION {IF s.h[k].open = 0 THEN IF s.h[k].t = 0 \/ s.stop = 1 THEN Out([s EXCEPT !.h = Del(@, k)], calls) ELSE {}
         ELSE (IF s.h[k].in # <<>> THEN Free(cfg, s, calls, k, s.h[k].in[1]) ELSE {})
              \cup (IF s.h[k].t = 0 THEN Free(cfg, s, calls, k, Timeout) ELSE {})
              \cup (IF s.stop = 1 THEN Free(cfg, s, calls, k, Ended) ELSE {}) : k \in DOMAIN s.h}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == [s EXCEPT !.h = [k \in DOMAIN s.h |-> [s.h[k] EXCEPT !.t = IF @ > 0 THEN @ - 1 ELSE 0]]]
Due(s) == \E k \in DOMAIN s.h : s.h[k].t = 0
Overdue(cfg, s, calls) == Due(s) \/ \E k \in DOMAIN s.h : s.h[k].open = 1 /\ (s.stop = 1 \/ s.h[k].in # <<>>)
Lax(cfg, s, calls) == Due(s)
MustGo(cfg, s, calls, c) == Started(calls, c)
Inv(cfg, s, calls) == /\ \A c \in DOMAIN calls : calls[c].pc = "wait" => Has(s.h, calls[c].ev.k) /\ s.h[calls[c].ev.k].open = 1
                      /\ \A k \in DOMAIN s.h : s.h[k].open = 1 => s.h[k].err = 0

C(rt, ttl) == [rt |-> rt, ttl |-> ttl]
McCfgs == {C(1, 2), C(2, 1)}
McOps(cfg, s, calls) == {[op |-> o, k |-> k, v |-> 4] : o \in {"wait", "err", "upd"}, k \in 0..1} \cup {[op |-> o, k |-> k] : o \in {"rel", "get"}, k \in 0..1}
                        \cup {[op |-> "cancel", k |-> 0], [op |-> "count", k |-> 0]}
McOps2(cfg, s, calls) == {[op |-> o, k |-> 0, v |-> 4] : o \in {"wait", "err"}} \cup {[op |-> o, k |-> 0] : o \in {"rel", "get"}} \cup {[op |-> "cancel", k |-> 0]}
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
