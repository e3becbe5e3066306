-------------------------------- MODULE Shard --------------------------------
(* ShardChan: every item goes to the shard its shard value k selects, k modulo cfg.n, in the    *)
(* order of arrival; cfg.inb, cfg.outb: capacities of the incoming channel and of the shards;   *)
(* cfg.fn: a worker per shard handles the items instead of their being received.                *)
(* in: items accepted; hold: the item that waits for room in its shard; out[i]: the shard;      *)
(* got[i]: the item the worker of shard i has taken, run: the shards whose worker handles it.   *)
(* Items move on at once.                                                                       *)
(* A recorded trace tells for every item its place q in the order in which its shard gives them *)
(* (so that other orders need not be tried); acc counts the items of a shard for that purpose.  *)
EXTENDS Obj

InitSt(cfg) == [in |-> <<>>, hold |-> <<>>, out |-> [i \in 0..(cfg.n - 1) |-> <<>>], got |-> [i \in 0..(cfg.n - 1) |-> <<>>], run |-> {}, stop |-> 0, dead |-> 0, acc |-> [i \in 0..(cfg.n - 1) |-> 0]]
Of(cfg, k) == k % cfg.n
Shards(cfg) == 0..(cfg.n - 1)
Waits(cfg, s, i) == s.hold # <<>> /\ Of(cfg, s.hold[1].k) = i

\* the first item of shard i, as a sequence
First(cfg, s, i) == IF s.out[i] # <<>> THEN <<Head(s.out[i])>> ELSE IF cfg.outb = 0 /\ Waits(cfg, s, i) THEN <<s.hold[1].v>> ELSE <<>>
Next_(s, i) == IF s.out[i] # <<>> THEN [s EXCEPT !.out[i] = Tail(@)] ELSE [s EXCEPT !.hold = <<>>]
Idle(cfg, s) == IF cfg.fn = 0 THEN {} ELSE {i \in Shards(cfg) : s.got[i] = <<>> /\ First(cfg, s, i) # <<>>}
RECURSIVE Norm(_, _)
Norm(cfg, s) ==
  IF Idle(cfg, s) # {} THEN LET i == CHOOSE x \in Idle(cfg, s) : TRUE IN Norm(cfg, [Next_(s, i) EXCEPT !.got[i] = First(cfg, s, i)])
  ELSE IF s.hold # <<>> THEN
    LET i == Of(cfg, s.hold[1].k) IN
    IF Len(s.out[i]) < cfg.outb THEN Norm(cfg, [s EXCEPT !.out[i] = Append(@, s.hold[1].v), !.hold = <<>>]) ELSE s
  ELSE IF s.in # <<>> THEN Norm(cfg, [s EXCEPT !.hold = <<Head(s.in)>>, !.in = Tail(@)])
  ELSE s
Rest(cfg, s, i) == Norm(cfg, Next_(s, i))
Turn(cfg, s, e) == Has(e, "q") => s.acc[Of(cfg, e.k)] >= e.q - 1
Room(cfg, s) == IF cfg.inb = 0 THEN s.hold = <<>> /\ s.dead = 0 ELSE Len(s.in) < cfg.inb

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "add" ->
              LET it == [k |-> e.k, v |-> e.v] IN
              (IF Room(cfg, s) /\ Turn(cfg, s, e)
               THEN LET t == [s EXCEPT !.acc[Of(cfg, e.k)] = @ + B(Has(e, "q"))] IN
                    Finish(Norm(cfg, IF cfg.inb = 0 THEN [t EXCEPT !.hold = <<it>>] ELSE [t EXCEPT !.in = Append(@, it)]), calls, c, <<0>>)
               ELSE {}) \cup (IF s.stop = 1 THEN Finish(s, calls, c, <<1>>) ELSE {})
         [] e.op = "recv" -> IF First(cfg, s, e.i) = <<>> THEN {} ELSE Finish(Rest(cfg, s, e.i), calls, c, First(cfg, s, e.i))
         [] e.op = "close" -> Finish(s, calls, c, <<>>)  \* of the incoming channel: nothing more is added
         [] e.op = "cancel" -> Finish([s EXCEPT !.stop = 1], calls, c, <<>>)
         [] e.op = "sizes" -> Finish(s, calls, c, IF s.stop = 1 THEN <<>> ELSE [i \in 1..cfg.n |-> Len(s.out[i - 1])])
         [] e.op = "nil" -> Finish(s, calls, c, <<1>>)

Internal(cfg, s, calls) == IF s.stop = 1 /\ s.dead = 0 THEN Out([s EXCEPT !.dead = 1], calls) ELSE {}
OnEvent(cfg, s, calls, ev) ==
  CASE ev.e = "fb" -> IF ev.i \in Shards(cfg) \ s.run /\ s.got[ev.i] = <<ev.v>> THEN Out([s EXCEPT !.run = @ \cup {ev.i}], calls) ELSE {}
    [] ev.e = "fe" -> IF ev.i \in s.run THEN Out(Norm(cfg, [s EXCEPT !.run = @ \ {ev.i}, !.got[ev.i] = <<>>]), calls) ELSE {}
    [] OTHER -> {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == s.stop = 0 /\ \E i \in Shards(cfg) \ s.run : s.got[i] # <<>>
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  CASE e.op = "add" -> s.stop = 1 \/ Room(cfg, s)
    [] e.op = "recv" -> s.stop = 0 /\ First(cfg, s, e.i) # <<>>
    [] OTHER -> TRUE

All(s) == FlattenSeq([i \in 1..Cardinality(DOMAIN s.out) |-> s.got[i - 1]]) \o FlattenSeq([i \in 1..Cardinality(DOMAIN s.out) |-> s.out[i - 1]]) \o [j \in DOMAIN s.hold |-> s.hold[j].v] \o [j \in DOMAIN s.in |-> s.in[j].v]
Inv(cfg, s, calls) == /\ \A i \in Shards(cfg) : Len(s.out[i]) <= cfg.outb
                      /\ Len(s.in) <= cfg.inb
                      /\ s.in # <<>> => s.hold # <<>>
                      /\ s.hold # <<>> => Len(s.out[Of(cfg, s.hold[1].k)]) = cfg.outb
                      /\ IsInjective(All(s))

C(n, inb, outb, fn) == [n |-> n, inb |-> inb, outb |-> outb, fn |-> fn]
McCfgs == {C(2, 1, 1, 0), C(2, 0, 0, 0), C(3, 2, 0, 1), C(1, 1, 1, 0)}
Used(s, calls) == ToSet(All(s)) \cup {calls[c].ev.v : c \in {d \in DOMAIN calls : calls[d].ev.op = "add"}}
Fresh(s, calls) == CHOOSE v \in 1..50 : v \notin Used(s, calls) /\ \A w \in 1..50 : w \notin Used(s, calls) => v <= w
McOps(cfg, s, calls) == {[op |-> "add", k |-> k, v |-> Fresh(s, calls)] : k \in {-1, 0}}
                 \cup {[op |-> "recv", i |-> i] : i \in IF cfg.fn = 0 THEN Shards(cfg) ELSE {}} \cup {[op |-> "cancel"]}
McEvents(cfg, s, calls) == {[e |-> "fb", i |-> i, v |-> s.got[i][1]] : i \in {j \in Shards(cfg) : s.got[j] # <<>>}} \cup {[e |-> "fe", i |-> i] : i \in Shards(cfg)}
McBound(cfg, s) == Len(All(s)) < 3
=============================================================================
