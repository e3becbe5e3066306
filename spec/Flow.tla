--------------------------------- MODULE Flow ---------------------------------
(* flow.Processor: the functions and conditions of the routes are called in the order in which they *)
(* were given, until one fails, with the event and the state of the call; its error is the result.  *)
(* cfg.routes: [t: 0 (Route) or 1 (RouteOn), cond, els]: els of Route are functions (> 0) and        *)
(* conditions (< 0); RouteOn asks its condition before each of its functions.                        *)
(* A call names the functions and conditions that fail (no).  Result: 0, the function that failed, or *)
(* -1 for a condition.                                                                               *)
EXTENDS Obj

RECURSIVE Chain(_)
Chain(rs) ==
  IF rs = <<>> THEN <<>>
  ELSE LET r == Head(rs) IN
       (IF r.t = 0 THEN r.els ELSE [i \in 1..(2 * Len(r.els)) |-> IF i % 2 = 1 THEN -r.cond ELSE r.els[i \div 2]]) \o Chain(Tail(rs))

InitSt(cfg) == [ch |-> Chain(cfg.routes)]
Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev
      p == calls[c].x IN
  IF e.op # "run" THEN {}
  ELSE IF Started(calls, c) THEN Out(s, GotoX(calls, c, "go", 0))
  ELSE IF calls[c].pc = "go" /\ p = Len(s.ch) THEN Finish(s, calls, c, <<0>>)
  ELSE {}
Internal(cfg, s, calls) == {}
\* ev.f, called for call ev.c, which is given event and state of that call (ev.ok)
OnEvent(cfg, s, calls, ev) ==
  IF ev.e # "fn" THEN {} ELSE IF ev.c \notin DOMAIN calls THEN {}
  ELSE LET p == calls[ev.c].x IN
       IF calls[ev.c].pc # "go" \/ p = Len(s.ch) \/ s.ch[p + 1] # ev.f \/ ev.ok # 1 THEN {}
       ELSE IF ev.f \in ToSet(calls[ev.c].ev.no) THEN Finish(s, calls, ev.c, <<IF ev.f < 0 THEN -1 ELSE ev.f>>)
       ELSE Out(s, GotoX(calls, ev.c, "go", p + 1))
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE
Inv(cfg, s, calls) == \A c \in DOMAIN calls : /\ calls[c].pc = "go" => \A i \in 1..calls[c].x : s.ch[i] \notin ToSet(calls[c].ev.no)
                                              /\ calls[c].pc = "done" /\ calls[c].r = <<0>> => ToSet(s.ch) \cap ToSet(calls[c].ev.no) = {}

R(t, cond, els) == [t |-> t, cond |-> cond, els |-> els]
McRoutes == {R(0, 0, <<>>), R(0, 0, <<-1, 1>>), R(0, 0, <<1, -2, 2>>), R(1, 3, <<>>), R(1, 3, <<3, 4>>), R(1, 1, <<2>>)}
McCfgs == {[routes |-> rs] : rs \in {<<>>} \cup {<<a>> : a \in McRoutes} \cup {<<a, b>> : a \in McRoutes, b \in McRoutes}}
McOps(cfg, s, calls) == {[op |-> "run", no |-> no] : no \in {<<>>, <<-1>>, <<-2>>, <<-3>>, <<1>>, <<2>>, <<3>>, <<4>>, <<-1, 3>>}}
McEvents(cfg, s, calls) == {[e |-> "fn", c |-> c, f |-> s.ch[calls[c].x + 1], ok |-> 1] : c \in {d \in DOMAIN calls : calls[d].pc = "go" /\ calls[d].x < Len(s.ch)}}
McBound(cfg, s) == TRUE
=============================================================================
