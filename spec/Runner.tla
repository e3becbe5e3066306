-------------------------------- MODULE Runner --------------------------------
(* Runner: cfg.n workers run tasks of two queues, run (a) and runctx (b), each in the order of   *)
(* submission, each task once.  got: tasks a worker has taken, go: tasks that run (each occupies *)
(* a worker), idle: workers alive without a task; room for cfg.buf tasks in each queue.          *)
(* Tasks numbered Gated and up run until they are opened.                                       *)
(* In a recorded trace the calls carry when they began (p) and returned (q): the order of calls  *)
(* that overlap is then left open until the tasks are taken, which comes to the same; and x tells *)
(* whether the task will run.  Once the context has ended no worker takes a task: those taken    *)
(* before (got) may still begin, or be left.                                                               *)
EXTENDS Obj

Gated == 1000
InitSt(cfg) == [a |-> <<>>, b |-> <<>>, got |-> {}, go |-> {}, idle |-> cfg.n, stop |-> 0, opened |-> {}]
Elem(e) == IF Has(e, "p") THEN [i |-> e.i, p |-> e.p, q |-> e.q, x |-> e.x] ELSE [i |-> e.i]
Queued(q, e) == IF ~Has(e, "p") THEN Append(q, Elem(e))
                ELSE SelectSeq(q, LAMBDA x : x.p < e.p) \o <<Elem(e)>> \o SelectSeq(q, LAMBDA x : x.p > e.p)
Next_(q) == IF q = <<>> THEN {} ELSE IF ~Has(q[1], "p") THEN {1} ELSE {j \in DOMAIN q : \A k \in DOMAIN q : ~(q[k].q < q[j].p)}
Kept(s, e) == Has(e, "x") /\ s.stop = 1 => e.x = 1
Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "run"    -> (IF Kept(s, e) THEN Finish([s EXCEPT !.a = Queued(@, e)], calls, c, <<>>) ELSE {}) \cup (IF s.stop = 1 THEN Finish(s, calls, c, <<>>) ELSE {})
         [] e.op = "runctx" -> (IF Kept(s, e) THEN Finish([s EXCEPT !.b = Queued(@, e)], calls, c, <<>>) ELSE {}) \cup (IF s.stop = 1 THEN Finish(s, calls, c, <<>>) ELSE {})
         [] e.op = "cancel" -> Finish([s EXCEPT !.stop = 1], calls, c, <<>>)
         [] e.op = "open"   -> Finish([s EXCEPT !.opened = @ \cup {e.i}], calls, c, <<>>)
Internal(cfg, s, calls) ==
  (IF s.stop = 0 /\ s.idle > 0 THEN {[st |-> [s EXCEPT !.a = RemoveAt(@, j), !.got = @ \cup {<<s.a[j].i, 0>>}, !.idle = @ - 1], calls |-> calls] : j \in Next_(s.a)} ELSE {})
  \cup (IF s.stop = 0 /\ s.idle > 0 THEN {[st |-> [s EXCEPT !.b = RemoveAt(@, j), !.got = @ \cup {<<s.b[j].i, 1>>}, !.idle = @ - 1], calls |-> calls] : j \in Next_(s.b)} ELSE {})
  \cup (IF s.stop = 1 /\ (s.idle > 0 \/ s.got # {}) THEN Out([s EXCEPT !.idle = 0, !.got = {}], calls) ELSE {})
OnEvent(cfg, s, calls, ev) ==
  CASE ev.e = "fb" -> IF <<ev.i, ev.x>> \in s.got THEN Out([s EXCEPT !.got = @ \ {<<ev.i, ev.x>>}, !.go = @ \cup {ev.i}], calls) ELSE {}
    [] ev.e = "fe" -> IF ev.i \in s.go /\ (ev.i >= Gated => ev.i \in s.opened) THEN Out([s EXCEPT !.opened = @ \ {ev.i}, !.go = @ \ {ev.i}, !.idle = @ + 1], calls) ELSE {}
    [] OTHER -> {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == s.got # {} \/ (s.idle > 0 /\ (s.stop = 1 \/ s.a # <<>> \/ s.b # <<>>))
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  CASE e.op = "run" -> s.stop = 1 \/ Len(s.a) < cfg.buf
    [] e.op = "runctx" -> s.stop = 1 \/ Len(s.b) < cfg.buf
    [] OTHER -> TRUE
Inv(cfg, s, calls) == /\ s.idle >= 0
                      /\ IF s.stop = 0 THEN s.idle + Cardinality(s.got) + Cardinality(s.go) = cfg.n
                         ELSE s.idle + Cardinality(s.got) + Cardinality(s.go) <= cfg.n
                      /\ IsInjective(s.a) /\ IsInjective(s.b)

McCfgs == {[n |-> 1, buf |-> 100], [n |-> 2, buf |-> 100]}
Ids(s) == {s.a[j].i : j \in DOMAIN s.a} \cup {s.b[j].i : j \in DOMAIN s.b} \cup {x[1] : x \in s.got} \cup s.go
Used(s, calls) == Ids(s) \cup {calls[c].ev.i : c \in {d \in DOMAIN calls : calls[d].ev.op # "cancel"}}
Fresh(s, calls, g) == CHOOSE v \in g..(g + 20) : v \notin Used(s, calls) /\ \A w \in g..(g + 20) : w \notin Used(s, calls) => v <= w
McOps(cfg, s, calls) == {[op |-> o, i |-> Fresh(s, calls, g)] : o \in {"run", "runctx"}, g \in {1, Gated}}
                        \cup {[op |-> "open", i |-> i] : i \in {x \in s.go : x >= Gated}} \cup {[op |-> "cancel"]}
McOps2(cfg, s, calls) == {[op |-> "run", i |-> Fresh(s, calls, 1)], [op |-> "runctx", i |-> Fresh(s, calls, Gated)]}
                        \cup {[op |-> "open", i |-> i] : i \in {x \in s.go : x >= Gated}} \cup {[op |-> "cancel"]}
McEvents(cfg, s, calls) == {[e |-> "fb", i |-> x[1], x |-> x[2]] : x \in s.got} \cup {[e |-> "fe", i |-> i] : i \in s.go}
McBound2(cfg, s) == Len(s.a) + Len(s.b) + Cardinality(s.got) + Cardinality(s.go) < 2
McBound(cfg, s) == Len(s.a) + Len(s.b) + Cardinality(s.got) + Cardinality(s.go) < 3
=============================================================================
