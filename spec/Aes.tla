--------------------------------- MODULE Aes ---------------------------------
(* crypto.AES, symbolically: a ciphertext is a record of its key, its plaintext and of what was done *)
(* to it since; only an untouched one can be decrypted, only with its key, and to its plaintext.       *)
(* cfg.keys: the length of every key; c: handle -> [k, d, n: the handle whose nonce it has,            *)
(* flip: positions of flipped bits, ok: 1 if nothing was cut, added or exchanged].                     *)
(* A call gives the handle where its result is kept.                                                   *)
EXTENDS Obj

InitSt(cfg) == [c |-> Empty]
Good(cfg, k) == cfg.keys[k] \in {16, 24, 32}
Opens(cfg, s, h, k) == Good(cfg, k) /\ s.c[h].k = k /\ s.c[h].ok = 1 /\ s.c[h].flip = {}
Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "enc" ->  \* nonce and ciphertext: never seen before, read by any AES-GCM
              IF Good(cfg, e.k) THEN Finish([s EXCEPT !.c = Put(@, e.h, [k |-> e.k, d |-> e.d, flip |-> {}, ok |-> 1])], calls, c, <<1, 1, 1>>)
              ELSE Finish(s, calls, c, <<0>>)
         [] e.op = "std" ->  \* made by another AES-GCM
              Finish([s EXCEPT !.c = Put(@, e.h, [k |-> e.k, d |-> e.d, flip |-> {}, ok |-> 1])], calls, c, <<>>)
         [] e.op = "flip" -> IF Has(s.c, e.h) THEN Finish([s EXCEPT !.c[e.h].flip = (@ \ {e.p}) \cup ({e.p} \ @)], calls, c, <<>>)
                             ELSE Finish(s, calls, c, <<>>)
         [] e.op \in {"cut", "ext", "mix"} -> IF Has(s.c, e.h) THEN Finish([s EXCEPT !.c[e.h].ok = 0], calls, c, <<>>)
                                              ELSE Finish(s, calls, c, <<>>)
         [] e.op = "dec" -> IF ~Has(s.c, e.h) THEN Finish(s, calls, c, <<>>)
                            ELSE Finish(s, calls, c, IF Opens(cfg, s, e.h, e.k) THEN <<1, s.c[e.h].d, 1>> ELSE <<0, 1>>)
         [] e.op = "chk" -> Finish(s, calls, c, <<1>>)
Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE
\* whoever lacks the key learns nothing; what was altered is not taken for genuine
Inv(cfg, s, calls) == \A h \in DOMAIN s.c : \A k \in DOMAIN cfg.keys :
                         Opens(cfg, s, h, k) => Good(cfg, k) /\ k = s.c[h].k /\ s.c[h].flip = {} /\ s.c[h].ok = 1

McCfgs == {[keys |-> <<16, 32>>], [keys |-> <<24, 24>>], [keys |-> <<32, 5>>]}
McOps(cfg, s, calls) ==
  {[op |-> "enc", k |-> k, d |-> d, h |-> h] : k \in 1..2, d \in 0..2, h \in 1..2}
  \cup {[op |-> "dec", k |-> k, h |-> h] : k \in 1..2, h \in 1..2}
  \cup {[op |-> "flip", h |-> h, p |-> p] : h \in 1..2, p \in {0, 97}}
  \cup {[op |-> o, h |-> h, p |-> 1] : o \in {"cut", "ext"}, h \in 1..2}
  \cup (IF Has(s.c, 1) /\ Has(s.c, 2) THEN {[op |-> "mix", h |-> 1, g |-> 2]} ELSE {})
  \cup (IF Good(cfg, 1) THEN {[op |-> "std", k |-> 1, d |-> 1, h |-> 1]} ELSE {})
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
