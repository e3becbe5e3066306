--------------------------------- MODULE Read ---------------------------------
(* ReadNBytes and ReadNBytesWithTimeout on a connection that delivers a stream in pieces of any size *)
(* and at any time.  A call takes exactly the next n bytes; it fails when the stream ends (or fails)  *)
(* before, or when its timeout is over, and then returns no bytes.                                    *)
(* q: bytes that have come and were not read; end: 1 once the stream has ended;                       *)
(* dl: units to the deadline that is set (-1: none).  cfg.nodl = 1: deadlines cannot be set.                                               *)
(* One call reads at a time (the calls of one reader).                                                *)
(* A timeout leaves its deadline at the connection, where it may end a later ReadNBytes, or not.      *)
EXTENDS Obj

InitSt(cfg) == [q |-> <<>>, end |-> 0, dl |-> -1]
Fail == <<-1>>
Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF Started(calls, c) THEN
    CASE e.op = "push" -> Finish([s EXCEPT !.q = @ \o e.d], calls, c, <<>>)
      [] e.op = "end"  -> Finish([s EXCEPT !.end = 1], calls, c, <<>>)
      [] e.op = "read" -> Out(s, GotoX(calls, c, "go", <<>>))
      [] e.op = "readt" -> Out([s EXCEPT !.dl = e.t], GotoX(calls, c, "go", <<>>))
                           \cup (IF s.end = 1 \/ cfg.nodl = 1 THEN Finish(s, calls, c, Fail) ELSE {})    \* no deadline can be set any more
  ELSE IF calls[c].pc = "go" THEN
    LET got == calls[c].x
        \* the earlier deadline may have been taken back
        free == IF e.op = "read" /\ s.dl >= 0 THEN Out([s EXCEPT !.dl = -1], calls) ELSE {} IN
    free \cup
    (IF Len(got) = e.n THEN Finish(s, calls, c, <<e.n>> \o got)
     ELSE (IF s.q # <<>>
           THEN LET all == IF e.n - Len(got) < Len(s.q) THEN e.n - Len(got) ELSE Len(s.q) IN
                \* near the deadline, only a part of what is there may be got before it
                UNION {Out([s EXCEPT !.q = SubSeq(@, k + 1, Len(@))], GotoX(calls, c, "go", got \o SubSeq(s.q, 1, k)))
                       : k \in IF s.dl = 0 THEN 1..all ELSE {all}}
           ELSE IF s.q = <<>> /\ s.end = 1 THEN Finish(s, calls, c, Fail) ELSE {})
          \cup (IF s.dl = 0 THEN Finish(s, calls, c, Fail) ELSE {}))
  ELSE {}
Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == [s EXCEPT !.dl = IF @ > 0 THEN @ - 1 ELSE @]
Reading(calls) == {c \in DOMAIN calls : calls[c].pc = "go"}
Overdue(cfg, s, calls) == \E c \in Reading(calls) : calls[c].ev.op = "readt" /\ s.dl = 0
Lax(cfg, s, calls) == Overdue(cfg, s, calls)
MustGo(cfg, s, calls, c) == calls[c].pc # "go" \/ s.q # <<>> \/ s.end = 1 \/ Len(calls[c].x) = calls[c].ev.n
                            \/ (calls[c].ev.op = "readt" /\ s.dl = 0)
Inv(cfg, s, calls) == \A c \in Reading(calls) : Len(calls[c].x) <= calls[c].ev.n

McCfgs == {[nodl |-> 0], [nodl |-> 1]}
McOps(cfg, s, calls) ==
  (IF Len(s.q) < 4 /\ s.end = 0 THEN {[op |-> "push", d |-> d] : d \in {<<7>>, <<1, 2>>, <<3, 4, 5>>}} ELSE {})
  \cup (IF s.end = 0 THEN {[op |-> "end"]} ELSE {})
  \cup (IF \A c \in DOMAIN calls : calls[c].ev.op \notin {"read", "readt"}
        THEN {[op |-> "read", n |-> n] : n \in {0, 1, 3}} \cup {[op |-> "readt", n |-> n, t |-> t] : n \in {0, 2}, t \in 1..2} ELSE {})
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
