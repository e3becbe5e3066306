------------------------------- MODULE ObjMC -------------------------------
(* Exhaustive exploration of a component's specification: any client may invoke any of the     *)
(* calls McOps at any time, at most MaxConc of them in progress at once; background work,      *)
(* callbacks and time interleave freely.  McBound keeps the state space finite where the       *)
(* component's state can grow.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxConc,
          InitSt(_), Silent(_,_,_,_), OnEvent(_,_,_,_), Internal(_,_,_),
          Overdue(_,_,_), MustGo(_,_,_,_), OnTick(_,_,_), Inv(_,_,_),
          McCfgs, McOps(_,_,_), McEvents(_,_,_), McBound(_,_)
VARIABLES cfg, st, calls
mvars == <<cfg, st, calls>>

McInit == /\ cfg \in McCfgs
          /\ st = InitSt(cfg)
          /\ calls = [c \in {} |-> 0]

McFree == CHOOSE c \in 1..MaxConc : c \notin DOMAIN calls /\ \A d \in 1..MaxConc : d \notin DOMAIN calls => c <= d

Invoke == /\ Cardinality(DOMAIN calls) < MaxConc
          /\ McBound(cfg, st)
          /\ \E op \in McOps(cfg, st, calls) :
               calls' = (McFree :> [ev |-> [e |-> "call", c |-> McFree] @@ op, pc |-> "start", r |-> <<>>, x |-> 0]) @@ calls
          /\ UNCHANGED <<cfg, st>>

Take(N) == \E n \in N : st' = n.st /\ calls' = n.calls
StepCall == (\E c \in DOMAIN calls : Take(Silent(cfg, st, calls, c))) /\ UNCHANGED cfg
StepInternal == Take(Internal(cfg, st, calls)) /\ UNCHANGED cfg
StepEvent == (\E ev \in McEvents(cfg, st, calls) : Take(OnEvent(cfg, st, calls, ev))) /\ UNCHANGED cfg
Return == \E c \in DOMAIN calls : /\ calls[c].pc = "done"
                                  /\ calls' = [d \in DOMAIN calls \ {c} |-> calls[d]]
                                  /\ UNCHANGED <<cfg, st>>
Tick == /\ ~Overdue(cfg, st, calls)
        /\ McBound(cfg, st)
        /\ st' = OnTick(cfg, st, calls)
        /\ UNCHANGED <<cfg, calls>>

McNext == Invoke \/ StepCall \/ StepInternal \/ StepEvent \/ Return \/ Tick
McSpec == McInit /\ [][McNext]_mvars

Invariant == Inv(cfg, st, calls)

(* once nothing can move without a new call or time, nothing that has to be finished is left *)
Settled == /\ \A c \in DOMAIN calls : calls[c].pc # "done" /\ Silent(cfg, st, calls, c) = {}
           /\ Internal(cfg, st, calls) = {}
           /\ \A ev \in McEvents(cfg, st, calls) : OnEvent(cfg, st, calls, ev) = {}
NoStuck == Settled => /\ ~Overdue(cfg, st, calls)
                      /\ \A c \in DOMAIN calls : ~MustGo(cfg, st, calls, c)
=============================================================================
