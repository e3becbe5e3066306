------------------------------- MODULE TwoKey -------------------------------
(* TwoKeyMap: values under a first key, with a second key as an alias of at most one first     *)
(* key.  d: first key -> value; a: second key -> first key.                                    *)
EXTENDS Obj

InitSt(cfg) == [d |-> Empty, a |-> Empty]
Look(s, k) == IF Has(s.d, k) THEN <<s.d[k], 1>> ELSE <<0, 0>>
NoAlias(a, k) == [x \in {y \in DOMAIN a : a[y] # k} |-> a[x]]
Rm(s, k) == [d |-> Del(s.d, k), a |-> NoAlias(s.a, k)]

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "put"    -> Finish([d |-> Put(s.d, e.k, e.v), a |-> Put(NoAlias(s.a, e.k), e.j, e.k)], calls, c, <<>>)
         [] e.op = "get"    -> Finish(s, calls, c, Look(s, e.k))
         [] e.op = "get2"   -> Finish(s, calls, c, IF Has(s.a, e.j) THEN Look(s, s.a[e.j]) ELSE <<0, 0>>)
         [] e.op = "rm"     -> Finish(Rm(s, e.k), calls, c, <<>>)
         [] e.op = "rm2"    -> Finish(IF Has(s.a, e.j) THEN Rm(s, s.a[e.j]) ELSE s, calls, c, <<>>)
         [] e.op = "len"    -> Finish(s, calls, c, <<Cardinality(DOMAIN s.d)>>)
         [] e.op = "keys"   -> Finish(s, calls, c, Sorted(DOMAIN s.d))
         [] e.op = "keys2"  -> Finish(s, calls, c, Sorted(DOMAIN s.a))

Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE
\* every alias leads to a stored value; no two aliases lead to the same one
Inv(cfg, s, calls) == /\ \A j \in DOMAIN s.a : s.a[j] \in DOMAIN s.d
                      /\ IsInjective(s.a)

McCfgs == {[z |-> 0]}
Ops(McK) ==    {[op |-> "put", k |-> k, j |-> j, v |-> v] : k \in McK, j \in McK, v \in 1..2}
                 \cup {[op |-> o, k |-> k] : o \in {"get", "rm"}, k \in McK}
                 \cup {[op |-> o, j |-> k] : o \in {"get2", "rm2"}, k \in McK}
                 \cup {[op |-> o] : o \in {"len", "keys", "keys2"}}
McOps(cfg, s, calls) == Ops(0..2)
McOps2(cfg, s, calls) == Ops(0..1)
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
