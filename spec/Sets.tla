-------------------------------- MODULE Sets --------------------------------
(* Set: mathematical sets.  Two registers; a call names the register s it works on; equals     *)
(* compares register s with register t, clone copies s to t, new replaces s.                   *)
EXTENDS Obj

InitSt(cfg) == [x |-> <<{}, {}>>]

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE LET A == s.x[e.s]
           To(S) == [s EXCEPT !.x[e.s] = S]
           Ret(r) == Finish(s, calls, c, r)
       IN CASE e.op = "new"    -> Finish(To(ToSet(e.vs)), calls, c, <<>>)
            [] e.op = "add"    -> Finish(To(A \cup {e.v}), calls, c, <<>>)
            [] e.op = "addall" -> Finish(To(A \cup ToSet(e.vs)), calls, c, <<>>)
            [] e.op = "remove" -> Finish(To(A \ {e.v}), calls, c, <<>>)
            [] e.op = "clear"  -> Finish(To({}), calls, c, <<>>)
            [] e.op = "has"    -> Ret(<<B(e.v \in A)>>)
            [] e.op = "hasall" -> Ret(<<B(ToSet(e.vs) \subseteq A)>>)
            [] e.op = "hasany" -> Ret(<<B(ToSet(e.vs) \cap A # {})>>)
            [] e.op \in {"values", "all"} -> Ret(Sorted(A))
            [] e.op = "size"   -> Ret(<<Cardinality(A)>>)
            [] e.op = "equals" -> Ret(<<B(A = s.x[e.t])>>)
            [] e.op = "clone"  -> Finish([s EXCEPT !.x[e.t] = A], calls, c, <<>>)

Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE
Inv(cfg, s, calls) == \A i \in 1..2 : s.x[i] \subseteq Int

McCfgs == {[z |-> 0]}
McV == 0..2
McVs == {<<>>, <<0, 1>>, <<1, 1>>, <<2, 0>>}
McOps(cfg, s, calls) ==
  LET R == 1..2 IN
  {[op |-> o, s |-> r, v |-> v] : o \in {"add", "remove", "has"}, r \in R, v \in McV}
  \cup {[op |-> o, s |-> r, vs |-> v] : o \in {"new", "addall", "hasall", "hasany"}, r \in R, v \in McVs}
  \cup {[op |-> o, s |-> r] : o \in {"values", "all", "size", "clear"}, r \in R}
  \cup {[op |-> o, s |-> r, t |-> 3 - r] : o \in {"equals", "clone"}, r \in R}
  \cup {[op |-> "equals", s |-> 1, t |-> 1]}
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
