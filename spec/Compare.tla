------------------------------- MODULE Compare -------------------------------
(* CompareSlice: the elements of the current list that are not in the other one (to delete), those *)
(* of the other one that are not in the current (to create), those of the current that are in both *)
(* (to modify), each in its order.  Elements are told apart by identifiers; a call gives the        *)
(* identifiers a and b of both lists, the result is made of positions: <<delete, -1, create, -1,    *)
(* modify, -1, both lists unchanged>>.                                                              *)
EXTENDS Obj

Is(q) == {q[i] : i \in DOMAIN q}
Positions(q, In(_)) == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : In(q[i]))
Fun(cfg, e) ==
  IF e.op = "chk" THEN <<1>>
  ELSE Positions(e.a, LAMBDA x : x \notin Is(e.b)) \o <<-1>> \o Positions(e.b, LAMBDA x : x \notin Is(e.a)) \o <<-1>>
       \o Positions(e.a, LAMBDA x : x \in Is(e.b)) \o <<-1, 1>>
\* delete and modify share the current list out; deleting and creating turns one set of identifiers into the other
Lemma(cfg, e, r) ==
  e.op = "cmp" =>
    LET m == SelectSeq([i \in 1..Len(r) |-> i], LAMBDA i : r[i] = -1)
        del == {r[i] : i \in 1..(m[1] - 1)}
        new == {r[i] : i \in (m[1] + 1)..(m[2] - 1)}
        mod == {r[i] : i \in (m[2] + 1)..(m[3] - 1)} IN
    /\ del \cup mod = DOMAIN e.a /\ del \cap mod = {}
    /\ (Is(e.a) \ {e.a[i] : i \in del}) \cup {e.b[i] : i \in new} = Is(e.b)
    /\ {e.a[i] : i \in mod} = Is(e.a) \cap Is(e.b)
INSTANCE Pure

McCfgs == {[w |-> w] : w \in 0..3}
Lists(n) == UNION {[1..k -> 1..3] : k \in 0..n}
McOps(cfg, s, calls) == {[op |-> "cmp", a |-> a, b |-> b] : a \in Lists(3), b \in Lists(2)}
=============================================================================
