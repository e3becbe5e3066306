-------------------------------- MODULE Locks --------------------------------
(* MapMutex and MapRWMutex: an independent (readers/writer) lock for every key.                *)
(* w: the keys held for writing; r: the number of read holds of a key.                         *)
EXTENDS Obj

InitSt(cfg) == [w |-> {}, r |-> Empty]
Rd(s, k) == IF Has(s.r, k) THEN s.r[k] ELSE 0
WFree(s, k) == k \notin s.w
Free(s, k) == WFree(s, k) /\ Rd(s, k) = 0

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "lock"    -> IF Free(s, e.k) THEN Finish([s EXCEPT !.w = @ \cup {e.k}], calls, c, <<>>) ELSE {}
         [] e.op = "rlock"   -> IF WFree(s, e.k) THEN Finish([s EXCEPT !.r = Put(@, e.k, Rd(s, e.k) + 1)], calls, c, <<>>) ELSE {}
         [] e.op = "unlock"  -> Finish([s EXCEPT !.w = @ \ {e.k}], calls, c, <<>>)
         [] e.op = "runlock" -> IF Rd(s, e.k) = 0 THEN {} ELSE Finish([s EXCEPT !.r = Put(@, e.k, Rd(s, e.k) - 1)], calls, c, <<>>)

Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
\* a writer that waits may hold back new readers
WaitingWriter(calls, k) == \E d \in DOMAIN calls : Started(calls, d) /\ calls[d].ev.op = "lock" /\ calls[d].ev.k = k
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  CASE e.op = "lock"  -> Free(s, e.k)
    [] e.op = "rlock" -> WFree(s, e.k) /\ ~WaitingWriter(calls, e.k)
    [] e.op = "runlock" -> Rd(s, e.k) > 0
    [] OTHER -> TRUE

\* never a writer together with readers; counts do not go below zero
Inv(cfg, s, calls) == /\ \A k \in DOMAIN s.r : s.r[k] >= 0
                      /\ \A k \in s.w : Rd(s, k) = 0

McCfgs == {[rw |-> b] : b \in 0..1}
McKeys == 0..1
McOps(cfg, s, calls) == {[op |-> "lock", k |-> k] : k \in McKeys}
                 \cup {[op |-> "unlock", k |-> k] : k \in s.w \cap McKeys}
                 \cup (IF cfg.rw = 1 THEN {[op |-> "rlock", k |-> k] : k \in McKeys}
                                          \cup {[op |-> "runlock", k |-> k] : k \in {x \in McKeys : Rd(s, x) > 0}}
                       ELSE {})
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == \A k \in DOMAIN s.r : s.r[k] < 3
=============================================================================
