--------------------------------- MODULE Gzip ---------------------------------
(* GZipData and GUnzipData, symbolically: an archive is the sequence of its members' data; what was   *)
(* done to it: flip: 1 if one bit was flipped, ok: 0 if it was cut or garbage was added.  Unzipping    *)
(* an untouched archive gives its data, of several members one after the other; a damaged one is       *)
(* refused (a flipped bit may be without meaning: then the data is right), never misread.              *)
EXTENDS Obj

InitSt(cfg) == [a |-> Empty]
New(ds) == [ds |-> ds, flip |-> 0, ok |-> 1]
Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "zip" -> Finish([s EXCEPT !.a = Put(@, e.h, New(<<e.d>>))], calls, c, <<1, 1>>)   \* another gzip can read it
         [] e.op = "std" -> Finish([s EXCEPT !.a = Put(@, e.h, New(<<e.d>>))], calls, c, <<>>)       \* another gzip made it
         [] e.op = "chk" -> Finish(s, calls, c, <<1>>)
         [] ~Has(s.a, e.h) -> Finish(s, calls, c, <<>>)
         [] e.op = "flip" -> Finish([s EXCEPT !.a[e.h].flip = 1], calls, c, <<>>)
         [] e.op \in {"cut", "ext"} -> Finish([s EXCEPT !.a[e.h].ok = 0], calls, c, <<>>)
         [] e.op = "cat" -> IF Has(s.a, e.g) /\ s.a[e.h] = New(s.a[e.h].ds) /\ s.a[e.g] = New(s.a[e.g].ds)
                            THEN Finish([s EXCEPT !.a = Put(@, e.h, New(s.a[e.h].ds \o s.a[e.g].ds))], calls, c, <<1>>)
                            ELSE Finish(s, calls, c, <<0>>)
         [] e.op = "unzip" -> LET a == s.a[e.h] IN
                              (IF a.ok = 1 THEN Finish(s, calls, c, <<1, 1>> \o a.ds) ELSE {})
                              \cup (IF a.ok = 0 \/ a.flip = 1 THEN Finish(s, calls, c, <<0, 1>>) ELSE {})
Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE
Inv(cfg, s, calls) == \A h \in DOMAIN s.a : Len(s.a[h].ds) >= 1

McCfgs == {[z |-> 0]}
McOps(cfg, s, calls) ==
  {[op |-> o, d |-> d, h |-> h] : o \in {"zip", "std"}, d \in 0..2, h \in 1..2}
  \cup {[op |-> "unzip", h |-> h] : h \in 1..2}
  \cup {[op |-> o, h |-> h, p |-> p] : o \in {"flip", "cut", "ext"}, h \in 1..2, p \in {1, 77}}
  \cup (IF \A h \in DOMAIN s.a : Len(s.a[h].ds) < 2 THEN {[op |-> "cat", h |-> 1, g |-> 2], [op |-> "cat", h |-> 2, g |-> 2]} ELSE {})
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
