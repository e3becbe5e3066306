-------------------------------- MODULE Chunk --------------------------------
(* ChunkChan and ShardChunk: items become chunks, per lane in the order they came in.           *)
(* cfg.n: number of lanes; cfg.size: items in a full chunk; cfg.to: the period, in units, at     *)
(* which a lane flushes what it has; cfg.inb, cfg.outb: capacities of the incoming (-1: large)   *)
(* and outgoing channels; cfg.fn: chunks go to a function instead of being received.             *)
(* cfg.to = 0: a period much shorter than a unit, so that a flush may happen at any time.        *)
(*                                                                                              *)
(* A lane is [in: items accepted, cur: the chunk being formed, hold: the chunk waiting for room  *)
(* in out (<<>>: none), out: chunks to be received, due: flushes to be made, got, run: the   *)
(* chunk the chunk function was taken for, and whether it runs].  A lane takes items at once unless a flush is due as well: then either may *)
(* come first.  due counts the flushes that are possible: one that the lane could not make since *)
(* it waited for room, and one for the end of the period in this unit of time.  owe of them are   *)
(* owed; once there is nothing to flush they are not: they may have been made to no effect, and   *)
(* at the end of the unit they lapse.                                                           *)
EXTENDS Obj

(* A recorded trace also tells which chunks each lane will give (cfg.want), so that steps which   *)
(* lead elsewhere need not be followed; n counts the chunks formed, for that purpose only.      *)
Lane0 == [in |-> <<>>, cur |-> <<>>, hold |-> <<>>, out |-> <<>>, due |-> 0, owe |-> 0, got |-> <<>>, run |-> 0, n |-> 0]
InitSt(cfg) == [ln |-> [i \in 0..(cfg.n - 1) |-> [Lane0 EXCEPT !.due = B(cfg.to = 0)]], now |-> 0, stop |-> 0, dead |-> {}]

Lanes(cfg) == 0..(cfg.n - 1)
Ready(l) == l.hold = <<>>
Form(cfg, l, x) == LET c == Append(l.cur, x) IN
  IF Len(c) >= cfg.size THEN [l EXCEPT !.hold = c, !.cur = <<>>, !.n = @ + B(Has(cfg, "want"))] ELSE [l EXCEPT !.cur = c]
TakeIn(cfg, l) == Form(cfg, [l EXCEPT !.in = Tail(@)], Head(l.in))
Push(cfg, l) == IF l.hold # <<>> /\ Len(l.out) < cfg.outb THEN [l EXCEPT !.out = Append(@, l.hold), !.hold = <<>>] ELSE l
\* the first chunk that can be received, <<>> if none
First(cfg, l) == IF l.out # <<>> THEN Head(l.out) ELSE IF cfg.outb = 0 THEN l.hold ELSE <<>>
Rest(l) == IF l.out # <<>> THEN [l EXCEPT !.out = Tail(@)] ELSE [l EXCEPT !.hold = <<>>]
Call(cfg, l) == IF cfg.fn = 1 /\ l.got = <<>> /\ First(cfg, l) # <<>> THEN [Rest(l) EXCEPT !.got = First(cfg, l)] ELSE l
Flush(cfg, l) == [l EXCEPT !.due = @ - B(cfg.to > 0), !.owe = IF @ > 0 THEN @ - 1 ELSE 0, !.hold = l.cur, !.cur = <<>>, !.n = @ + B(Has(cfg, "want"))]
\* the next chunk of a lane, if it is known
Known(cfg, i, l) == Has(cfg, "want") /\ l.n < Len(cfg.want[i + 1])
Complete(cfg, i, l) == Len(l.cur) >= Len(cfg.want[i + 1][l.n + 1])
RECURSIVE Norm(_, _, _)
Norm(cfg, i, l0) == LET m == Push(cfg, Call(cfg, Push(cfg, l0)))
                        l == IF Ready(m) /\ m.cur = <<>> THEN [m EXCEPT !.owe = 0] ELSE m IN
  IF l # l0 THEN Norm(cfg, i, l)
  ELSE IF ~Ready(l) THEN l
  ELSE IF cfg.to = 0 /\ Known(cfg, i, l) /\ Complete(cfg, i, l) THEN Norm(cfg, i, Flush(cfg, l))
  ELSE IF l.in # <<>> /\ (l.due = 0 \/ (Known(cfg, i, l) /\ ~Complete(cfg, i, l))) THEN Norm(cfg, i, TakeIn(cfg, l)) ELSE l
Both(p, q) == IsPrefix(p, q) \/ IsPrefix(q, p)
Wanted(w, l) ==
  LET made == (IF l.got = <<>> THEN <<>> ELSE <<l.got>>) \o l.out \o (IF l.hold = <<>> THEN <<>> ELSE <<l.hold>>)
      from == l.n - Len(made)
      rest == FlattenSeq(SubSeq(w, l.n + 1, Len(w))) IN
  /\ \A j \in DOMAIN made : from + j <= Len(w) => made[j] = w[from + j]
  /\ l.n < Len(w) => Len(l.cur) <= Len(w[l.n + 1])
  /\ Both(l.cur \o l.in, rest)
Leads(cfg, N) == IF Has(cfg, "want") THEN {n \in N : \A i \in DOMAIN n.st.ln : Wanted(cfg.want[i + 1], n.st.ln[i])} ELSE N
Set(cfg, s, i, l) == [s EXCEPT !.ln[i] = Norm(cfg, i, l)]

Of(cfg, e) == IF cfg.n = 1 THEN 0 ELSE e.k % cfg.n
Alive(s, i) == i \notin s.dead
\* after the cancellation only what is known to be received is of interest
Useful(cfg, s, i) == IF s.stop = 1 /\ Has(cfg, "want") THEN Known(cfg, i, s.ln[i]) ELSE Alive(s, i)
Worth(cfg, s, i, v) == s.stop = 1 /\ Has(cfg, "want") => \E j \in s.ln[i].n + 1 .. Len(cfg.want[i + 1]) : Contains(cfg.want[i + 1][j], v)
Sum(F(_), S) == FoldSet(LAMBDA x, a : F(x) + a, 0, S)

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "add" ->
              LET i == Of(cfg, e)
                  l == s.ln[i]
                  acc == IF cfg.inb = 0
                         THEN IF Ready(l) /\ Alive(s, i) THEN Finish(Set(cfg, s, i, Form(cfg, l, e.v)), calls, c, <<>>) ELSE {}
                         ELSE IF cfg.inb < 0 \/ Len(l.in) < cfg.inb
                              THEN Finish(Set(cfg, s, i, [l EXCEPT !.in = Append(@, e.v)]), calls, c, <<>>) ELSE {}
              IN (IF Worth(cfg, s, i, e.v) THEN Leads(cfg, acc) ELSE {}) \cup (IF s.stop = 1 THEN Finish(s, calls, c, <<>>) ELSE {})
         [] e.op = "recv" ->
              LET l == s.ln[e.i] IN
              IF First(cfg, l) = <<>> THEN {}
              ELSE Finish(Set(cfg, s, e.i, Rest(l)), calls, c, First(cfg, l))
         [] e.op = "close" -> Finish(s, calls, c, <<>>)  \* of the incoming channel: nothing more is added
         [] e.op = "cancel" -> Finish([s EXCEPT !.stop = 1], calls, c, <<>>)
         [] e.op = "sizes" -> Finish(s, calls, c, IF s.stop = 1 THEN <<>> ELSE <<Sum(LAMBDA i : Len(s.ln[i].in), Lanes(cfg)), Sum(LAMBDA i : Len(s.ln[i].out), Lanes(cfg))>>)
         [] e.op = "own" -> Finish(s, calls, c, <<0>>)   \* chunks received earlier that changed since
         [] e.op = "nil" -> Finish(s, calls, c, <<1>>)   \* there is no lane outside 0..n-1

Internal(cfg, s, calls) ==
  Leads(cfg, UNION {LET l == s.ln[i] IN
         (IF Useful(cfg, s, i) /\ l.due > 0 /\ Ready(l) /\ l.cur # <<>> THEN Out(Set(cfg, s, i, Flush(cfg, l)), calls) ELSE {})
         \cup (IF Useful(cfg, s, i) /\ l.due > 0 /\ Ready(l) /\ l.in # <<>> THEN Out(Set(cfg, s, i, TakeIn(cfg, l)), calls) ELSE {})
         \cup (IF s.stop = 1 /\ Alive(s, i) /\ ~Has(cfg, "want") THEN Out([s EXCEPT !.dead = @ \cup {i}], calls) ELSE {}) : i \in Lanes(cfg)})

OnEvent(cfg, s, calls, ev) ==
  CASE ev.e \in {"fb", "fe"} /\ ev.i \notin DOMAIN s.ln -> {}
    [] ev.e = "fb" ->  \* the chunk function is called
         LET l == s.ln[ev.i] IN
         IF l.run = 0 /\ l.got # <<>> /\ l.got = ev.r THEN Out([s EXCEPT !.ln[ev.i].run = 1], calls) ELSE {}
    [] ev.e = "fe" ->
         IF s.ln[ev.i].run = 1 THEN Out(Set(cfg, s, ev.i, [s.ln[ev.i] EXCEPT !.run = 0, !.got = <<>>]), calls) ELSE {}
    [] OTHER -> {}

OnTick(cfg, s, calls) ==
  LET n == s.now + 1
      due(l) == (IF Ready(l) \/ l.due = 0 THEN 0 ELSE 1) + B(n % cfg.to = 0)
      Next_(i) == LET l == s.ln[i] IN Norm(cfg, i, [l EXCEPT !.due = due(l), !.owe = due(l)]) IN
  IF cfg.to = 0 THEN s ELSE [s EXCEPT !.now = n % cfg.to, !.ln = [i \in Lanes(cfg) |-> Next_(i)]]
Due(cfg, s, i) == Ready(s.ln[i]) /\ (s.ln[i].owe > 0 \/ (s.ln[i].due > 0 /\ (s.ln[i].in # <<>> \/ (cfg.to = 0 /\ s.ln[i].cur # <<>>))))
Overdue(cfg, s, calls) == s.stop = 0 /\ \E i \in Lanes(cfg) : Due(cfg, s, i) \/ (s.ln[i].run = 0 /\ s.ln[i].got # <<>>)
Lax(cfg, s, calls) == s.stop = 0 /\ \E i \in Lanes(cfg) : cfg.to > 0 /\ Due(cfg, s, i)
MustGo(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  CASE e.op = "add" -> s.stop = 1 \/ (LET l == s.ln[Of(cfg, e)] IN IF cfg.inb = 0 THEN Ready(l) ELSE cfg.inb < 0 \/ Len(l.in) < cfg.inb)
    [] e.op = "recv" -> s.stop = 0 /\ First(cfg, s.ln[e.i]) # <<>>
    [] OTHER -> TRUE

Inv(cfg, s, calls) ==
  \A i \in Lanes(cfg) : LET l == s.ln[i] IN
    /\ Len(l.cur) < cfg.size
    /\ l.owe <= l.due
    /\ \A j \in DOMAIN l.out : Len(l.out[j]) \in 1..cfg.size
    /\ Len(l.hold) <= cfg.size /\ Len(l.out) <= cfg.outb
    /\ cfg.inb >= 0 => Len(l.in) <= cfg.inb
    /\ l.hold # <<>> => Len(l.out) = cfg.outb
    /\ l.in # <<>> => l.due > 0 \/ l.hold # <<>>
    \* items are distinguishable and never duplicated
    /\ IsInjective(l.got \o FlattenSeq(l.out) \o l.hold \o l.cur \o l.in)

C(n, size, to, inb, outb, fn) == [n |-> n, size |-> size, to |-> to, inb |-> inb, outb |-> outb, fn |-> fn]
McCfgs == {C(1, 2, 1, 1, 1, 0), C(1, 2, 2, 0, 0, 0), C(1, 1, 1, 1, 0, 0), C(1, 3, 1, 2, 1, 1), C(1, 2, 0, 1, 1, 0)}
McCfgsSc == {C(2, 2, 1, -1, 1, 0), C(2, 2, 1, -1, 1, 1)}
Items(s) == UNION {ToSet(s.ln[i].got \o FlattenSeq(s.ln[i].out) \o s.ln[i].hold \o s.ln[i].cur \o s.ln[i].in) : i \in DOMAIN s.ln}
Used(s, calls) == Items(s) \cup {calls[c].ev.v : c \in {d \in DOMAIN calls : calls[d].ev.op = "add"}}
\* the lowest number that is not in the pipe
Fresh(s, calls) == CHOOSE v \in 1..50 : v \notin Used(s, calls) /\ \A w \in 1..50 : w \notin Used(s, calls) => v <= w
McOps(cfg, s, calls) == (IF cfg.n = 1 THEN {[op |-> "add", v |-> Fresh(s, calls)]} ELSE {[op |-> "add", v |-> Fresh(s, calls), k |-> k] : k \in {-1, 0}})
                 \cup {[op |-> "recv", i |-> i] : i \in IF cfg.fn = 0 THEN Lanes(cfg) ELSE {}}
                 \cup {[op |-> "cancel"]}
McEvents(cfg, s, calls) == {[e |-> "fb", i |-> i, r |-> s.ln[i].got] : i \in Lanes(cfg)} \cup {[e |-> "fe", i |-> i] : i \in Lanes(cfg)}
McBound(cfg, s) == Cardinality(Items(s)) < (IF cfg.n = 1 THEN 3 ELSE 2)
=============================================================================
