-------------------------------- MODULE Obj --------------------------------
(* Shared vocabulary of the specifications of axutils components.                              *)
(*                                                                                             *)
(* A component's state is st (a record), its configuration cfg.  calls maps the identifiers of *)
(* the calls in progress to [ev: the call with its arguments, pc, r: its result].  A call is   *)
(* A call is invoked with pc = "start", takes one or more silent steps and may return once pc = "done".  *)
(* A component module defines                                                                  *)
(*   InitSt(cfg)                   the initial state                                           *)
(*   Silent(cfg, st, calls, c)     the steps call c can take: a set of [st, calls]             *)
(*   Internal(cfg, st, calls)      the steps background work can take                          *)
(*   OnEvent(cfg, st, calls, ev)   the steps that are visible as event ev (callbacks)          *)
(*   OnTick(cfg, st, calls)        one unit of time passes                                     *)
(*   Overdue(cfg, st, calls)       background work must be done before time passes             *)
(*   MustGo(cfg, st, calls, c)     call c may not stay pending once everything has settled     *)
(*   Lax(cfg, st, calls)           something is due in the present unit of time: it is owed      *)
(*                                 only by the end of the unit                                 *)
(*   Inv(cfg, st, calls)           the invariants                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Done(calls, c, r) == [calls EXCEPT ![c] = [ev |-> @.ev, pc |-> "done", r |-> r, x |-> 0]]
Goto(calls, c, pc) == [calls EXCEPT ![c].pc = pc]
GotoX(calls, c, pc, x) == [calls EXCEPT ![c] = [ev |-> @.ev, pc |-> pc, r |-> @.r, x |-> x]]
Out(s, cs) == {[st |-> s, calls |-> cs]}
Finish(s, calls, c, r) == Out(s, Done(calls, c, r))
B(b) == IF b THEN 1 ELSE 0
\* functions as finite maps
Empty == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Sorted(S) == SetToSortSeq(S, <)
Without(q, k) == SelectSeq(q, LAMBDA x : x # k)
Has(f, k) == k \in DOMAIN f
Started(calls, c) == calls[c].pc = "start"
=============================================================================
