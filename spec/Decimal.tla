------------------------------- MODULE Decimal -------------------------------
(* Package math.  Numbers are decimal: n: 1 if negative, d: the digits without leading zeros (none  *)
(* for 0).  IntPointMove moves the decimal point: it appends zeros or drops digits; a result that    *)
(* does not fit into an int is not specified.  Min and Max of every type (t) compare.                *)
EXTENDS Obj

MaxInt == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
RECURSIVE LexLess(_, _)
LexLess(p, q) == p # <<>> /\ (Head(p) < Head(q) \/ (Head(p) = Head(q) /\ LexLess(Tail(p), Tail(q))))
AbsLess(p, q) == Len(p) < Len(q) \/ (Len(p) = Len(q) /\ LexLess(p, q))
Less(n, p, m, q) == IF n # m THEN n = 1 ELSE IF n = 1 THEN AbsLess(q, p) ELSE AbsLess(p, q)
Num(n, d) == IF d = <<>> THEN <<0>> ELSE <<n>> \o d
Zeros(k) == [i \in 1..k |-> 0]
Move(n, d, k) ==
  IF d = <<>> THEN <<0>>
  ELSE IF k >= 0 THEN (IF Len(d) + k > Len(MaxInt) \/ AbsLess(MaxInt, d \o Zeros(k)) THEN <<-1>> ELSE Num(n, d \o Zeros(k)))
  ELSE Num(n, SubSeq(d, 1, IF Len(d) + k > 0 THEN Len(d) + k ELSE 0))
Fun(cfg, e) ==
  CASE e.op = "move" -> Move(e.n, e.d, e.k)
    [] e.op = "min" -> IF Less(e.n, e.d, e.n2, e.d2) THEN Num(e.n, e.d) ELSE Num(e.n2, e.d2)
    [] e.op = "max" -> IF Less(e.n, e.d, e.n2, e.d2) THEN Num(e.n2, e.d2) ELSE Num(e.n, e.d)
\* there and back again
Lemma(cfg, e, r) ==
  e.op = "move" /\ e.k >= 0 /\ r # <<-1>> /\ e.d # <<>> => Move(r[1], Tail(r), -e.k) = Num(e.n, e.d)
INSTANCE Pure

McCfgs == {[z |-> 0]}
Ds == {<<>>, <<1>>, <<9>>, <<1, 0>>, <<1, 2, 3>>, <<9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>,
       <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0>>, MaxInt}
Small == {<<>>, <<1>>, <<2>>, <<1, 0>>, <<1, 0, 0>>, <<1, 2, 7>>}
McOps(cfg, s, calls) ==
  {[op |-> "move", n |-> IF d = <<>> THEN 0 ELSE n, d |-> d, k |-> k] : n \in 0..1, d \in Ds, k \in -20..20}
  \cup {[op |-> o, t |-> t, n |-> 0, d |-> d, n2 |-> 0, d2 |-> d2] : o \in {"min", "max"}, t \in 0..11, d \in Small, d2 \in Small}
  \cup {[op |-> o, t |-> t, n |-> 1, d |-> d, n2 |-> n2, d2 |-> d2] : o \in {"min", "max"}, t \in {0, 1, 2, 3, 4, 10, 11}, d \in Small \ {<<>>}, n2 \in 0..1, d2 \in Small \ {<<>>}}
=============================================================================
