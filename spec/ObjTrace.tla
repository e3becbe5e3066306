------------------------------ MODULE ObjTrace ------------------------------
(* Validation of recorded executions against a specification that is given as a set of       *)
(* transition operators (see Obj.tla for what they mean).  Every recorded trace is an         *)
(* initial state; a trace is accepted when some behaviour of the specification explains all   *)
(* of its events.  Steps that the recorder cannot see (linearization points of pending calls, *)
(* background work) are taken silently, as late as possible.  The recorder adds to every call *)
(* the result it is going to return (rr), so that only steps that lead to it are tried; a     *)
(* call that never returns must not be done.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Traces, Diag,
          InitSt(_), Silent(_,_,_,_), OnEvent(_,_,_,_), Internal(_,_,_),
          Overdue(_,_,_), MustGo(_,_,_,_), Lax(_,_,_), OnTick(_,_,_)
VARIABLES tid, l, st, calls
tvars == <<tid, l, st, calls>>

cfg == Traces[tid].cfg
Len_ == Len(Traces[tid].ev)
Ev == Traces[tid].ev[l]
NoCalls == [c \in {} |-> 0]

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ st = InitSt(Traces[tid].cfg)
             /\ calls = NoCalls

Consume == l' = l + 1 /\ UNCHANGED tid

Fits(n) == \A c \in DOMAIN n : n[c].pc = "done" => n[c].r = n[c].ev.rr

TCall == /\ Ev.e = "call"
         /\ calls' = (Ev.c :> [ev |-> Ev, pc |-> "start", r |-> <<>>, x |-> 0]) @@ calls
         /\ UNCHANGED st /\ Consume

TRet == /\ Ev.e = "ret"
        /\ Ev.c \in DOMAIN calls
        /\ calls[Ev.c].pc = "done"
        /\ calls[Ev.c].r = Ev.r
        /\ calls' = [c \in DOMAIN calls \ {Ev.c} |-> calls[c]]
        /\ UNCHANGED st /\ Consume

TTick == /\ Ev.e = "tick"
         /\ ~Overdue(cfg, st, calls)
         /\ st' = OnTick(cfg, st, calls)
         /\ UNCHANGED calls /\ Consume

TQuiet == /\ Ev.e = "quiet"
          /\ \A c \in DOMAIN calls : calls[c].pc # "done"
          /\ \/ ~Ev.f /\ Lax(cfg, st, calls)
             \/ /\ ~Overdue(cfg, st, calls)
                /\ \A c \in DOMAIN calls : ~MustGo(cfg, st, calls, c)
          /\ UNCHANGED <<st, calls>> /\ Consume

TEvent == /\ Ev.e \notin {"call", "ret", "tick", "quiet", "race", "crash", "panic", "spin", "leak", "hang", "refused"}
          /\ \E n \in OnEvent(cfg, st, calls, Ev) : Fits(n.calls) /\ st' = n.st /\ calls' = n.calls
          /\ Consume

TSilent == /\ Ev.e # "call"
           /\ ~(Ev.e = "ret" /\ Ev.c \in DOMAIN calls /\ calls[Ev.c].pc = "done")
           /\ \/ \E c \in DOMAIN calls : \E n \in Silent(cfg, st, calls, c) :
                    Fits(n.calls) /\ st' = n.st /\ calls' = n.calls
              \/ \E n \in Internal(cfg, st, calls) : Fits(n.calls) /\ st' = n.st /\ calls' = n.calls
           /\ UNCHANGED <<tid, l>>

TraceNext == \/ /\ l <= Len_
                /\ TCall \/ TRet \/ TTick \/ TQuiet \/ TEvent \/ TSilent
             \/ /\ l = Len_ + 1
                /\ PrintT(<<"ACC", tid>>)
                /\ l' = l + 1
                /\ UNCHANGED <<tid, st, calls>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Progress == Diag => PrintT(<<"AT", tid, l>>)
=============================================================================
