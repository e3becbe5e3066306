-------------------------------- MODULE Pure --------------------------------
(* A component without state: the result of every call is a function of its arguments, whatever    *)
(* else goes on.  Fun(cfg, e): the result of call e; Lemma(cfg, e, r): what the specification       *)
(* itself must satisfy for it.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Fun(_, _), Lemma(_, _, _)
InitSt(cfg) == [z |-> 0]
Silent(cfg, s, calls, c) ==
  IF calls[c].pc # "start" THEN {}
  ELSE {[st |-> s, calls |-> [calls EXCEPT ![c] = [ev |-> @.ev, pc |-> "done", r |-> Fun(cfg, calls[c].ev), x |-> 0]]]}
Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE
Inv(cfg, s, calls) == \A c \in DOMAIN calls : calls[c].pc = "done" => Lemma(cfg, calls[c].ev, calls[c].r)
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
