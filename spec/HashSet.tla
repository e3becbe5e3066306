------------------------------ MODULE HashSet ------------------------------
(* HashSet: a concurrent set with an optional bound.  q is the contents in the order of       *)
(* insertion; adding a key beyond the bound evicts the oldest key.                             *)
EXTENDS Obj

InitSt(cfg) == [q |-> <<>>]

In(s, k) == \E i \in 1..Len(s.q) : s.q[i] = k
Insert(cfg, s, k) ==
  IF In(s, k) THEN s
  ELSE LET q == Append(s.q, k)
       IN [s EXCEPT !.q = IF cfg.max > 0 /\ Len(q) > cfg.max THEN Tail(q) ELSE q]

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "add"   -> Finish(Insert(cfg, s, e.k), calls, c, <<>>)
         [] e.op = "has"   -> Finish(s, calls, c, <<B(In(s, e.k))>>)
         [] e.op = "hoc"   -> Finish(Insert(cfg, s, e.k), calls, c, <<B(In(s, e.k))>>)
         [] e.op = "del"   -> Finish([s EXCEPT !.q = Without(@, e.k)], calls, c, <<>>)
         [] e.op = "count" -> Finish(s, calls, c, <<Len(s.q)>>)
         [] e.op = "clear" -> Finish([s EXCEPT !.q = <<>>], calls, c, <<>>)
         [] e.op = "keys"  -> Finish(s, calls, c, Sorted(ToSet(s.q)))

Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE

(* at most max keys, no key twice *)
Inv(cfg, s, calls) == /\ cfg.max > 0 => Len(s.q) <= cfg.max
                      /\ IsInjective(s.q)

McCfgs == {[max |-> m] : m \in 0..2}
McKeys == 1..3
McOps(cfg, s, calls) == {[op |-> o, k |-> k] : o \in {"add", "has", "hoc", "del"}, k \in McKeys}
                 \cup {[op |-> o] : o \in {"count", "clear", "keys"}}
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
