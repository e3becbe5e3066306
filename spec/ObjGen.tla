------------------------------- MODULE ObjGen -------------------------------
(* Scripts from the specification: the graph of settled states is explored breadth first, with *)
(* one call invoked or one unit of time passed in each, and the way to every transition is     *)
(* printed.  The driver replays them on the real code.  hist is hidden by the VIEW.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxConc, MaxHist,
          InitSt(_), Silent(_,_,_,_), OnEvent(_,_,_,_), Internal(_,_,_),
          Overdue(_,_,_), MustGo(_,_,_,_), OnTick(_,_,_),
          McCfgs, McOps(_,_,_), McEvents(_,_,_), McBound(_,_)
VARIABLES cfg, st, calls, hist
gvars == <<cfg, st, calls, hist>>

GenInit == /\ cfg \in McCfgs
           /\ st = InitSt(cfg)
           /\ calls = [c \in {} |-> 0]
           /\ hist = <<>>

GenFree == CHOOSE c \in 1..(MaxConc + 1) : c \notin DOMAIN calls /\ \A d \in 1..MaxConc : d \notin DOMAIN calls => c <= d
GTake(N) == \E n \in N : st' = n.st /\ calls' = n.calls
Moves == \/ \E c \in DOMAIN calls : GTake(Silent(cfg, st, calls, c))
         \/ GTake(Internal(cfg, st, calls))
         \/ \E ev \in McEvents(cfg, st, calls) : GTake(OnEvent(cfg, st, calls, ev))
         \/ \E c \in DOMAIN calls : /\ calls[c].pc = "done"
                                    /\ calls' = [d \in DOMAIN calls \ {c} |-> calls[d]]
                                    /\ UNCHANGED st
GSettled == /\ \A c \in DOMAIN calls : calls[c].pc # "done" /\ Silent(cfg, st, calls, c) = {}
            /\ Internal(cfg, st, calls) = {}
            /\ \A ev \in McEvents(cfg, st, calls) : OnEvent(cfg, st, calls, ev) = {}
Emit(h) == PrintT("GEN" \o ToJson([cfg |-> cfg, h |-> h]))

GenNext == IF ~GSettled THEN Moves /\ UNCHANGED <<cfg, hist>>
           ELSE /\ Len(hist) < MaxHist
                /\ McBound(cfg, st)
                /\ \/ /\ Cardinality(DOMAIN calls) < MaxConc
                      /\ \E op \in McOps(cfg, st, calls) :
                           /\ calls' = (GenFree :> [ev |-> [e |-> "call", c |-> GenFree] @@ op, pc |-> "start", r |-> <<>>, x |-> 0]) @@ calls
                           /\ hist' = Append(hist, op)
                           /\ Emit(hist')
                      /\ UNCHANGED st
                   \/ /\ st' = OnTick(cfg, st, calls)
                      /\ st' # st
                      /\ hist' = Append(hist, [op |-> "tick"])
                      /\ Emit(hist')
                      /\ UNCHANGED calls
                /\ UNCHANGED cfg

GenSpec == GenInit /\ [][GenNext]_gvars
GenView == <<cfg, st, calls>>
=============================================================================
