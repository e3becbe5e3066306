------------------------------- MODULE CryptoFs -------------------------------
(* CryptoFSBuilder and CryptoFS.  Paths are numbers (Parent gives the directory, names in order of   *)
(* the numbers; 0 is the root of the tree).                                                           *)
(*  disk: path -> [dir, data]: what the builder collects from                                          *)
(*  bf:   path -> [dir, data, ents]: what it has collected; key: its secret (0: none)                  *)
(*  img:  saved images: [key, f, ok];  fs: loaded file systems;  fh: open files [f: entry, pos]        *)
(* Secrets 8 and 9 are no AES keys; image 9 cannot be written.                                         *)
EXTENDS Obj

Parent(p) == CASE p = 2 -> 1 [] p = 3 -> 2 [] p \in {4, 5} -> 1 [] p = 8 -> 7 [] OTHER -> 0
IsKey(k) == k \notin {0, 8, 9}
Dir == [dir |-> 1, data |-> <<>>]
InitSt(cfg) == [disk |-> (0 :> Dir), bf |-> Empty, key |-> 0, img |-> Empty, fs |-> Empty, fh |-> Empty]
RECURSIVE Below(_, _)
Below(p, q) == p = q \/ (q # 0 /\ Below(p, Parent(q)))      \* q is p or below
Children(disk, p) == Sorted({q \in DOMAIN disk : q # 0 /\ Parent(q) = p})
Entry(disk, p) == [dir |-> disk[p].dir, data |-> disk[p].data,
                   ents |-> IF disk[p].dir = 0 THEN <<>> ELSE LET c == Children(disk, p) IN [i \in DOMAIN c |-> 2 * c[i] + disk[c[i]].dir]]
RECURSIVE Walk(_, _)
WalkEnts(f, es) == FoldLeft(LAMBDA acc, x : acc \o (<<x>> \o (IF x % 2 = 0 THEN <<>>
                              ELSE IF ~Has(f, x \div 2) \/ f[x \div 2].dir = 0 THEN <<-1>> ELSE Walk(f, x \div 2))), <<>>, es)
Walk(f, p) == WalkEnts(f, f[p].ents)

\* how many bytes a read may give (of a recorded read, what it gave)
Sizes(e, max) == IF "rr" \in DOMAIN e THEN (1..max) \cap {Len(e.rr)} ELSE 1..max

Silent(cfg, s, calls, c) ==
  LET e == calls[c].ev
      Ret(r) == Finish(s, calls, c, r)
      To(t, r) == Finish(t, calls, c, r)
      F == IF Has(s.fs, e.f) THEN s.fs[e.f] ELSE Empty IN
  IF ~Started(calls, c) THEN {}
  ELSE CASE e.op = "put" -> IF Has(s.disk, Parent(e.p)) /\ s.disk[Parent(e.p)].dir = 1 /\ (Has(s.disk, e.p) => s.disk[e.p].dir = 0)
                            THEN To([s EXCEPT !.disk = Put(@, e.p, [dir |-> 0, data |-> e.d])], <<>>) ELSE Ret(<<>>)
         [] e.op = "mkdir" -> IF Has(s.disk, Parent(e.p)) /\ s.disk[Parent(e.p)].dir = 1 /\ ~Has(s.disk, e.p)
                              THEN To([s EXCEPT !.disk = Put(@, e.p, Dir)], <<>>) ELSE Ret(<<>>)
         [] e.op = "del" -> To([s EXCEPT !.disk = [q \in {x \in DOMAIN s.disk : x = 0 \/ ~Below(e.p, x)} |-> s.disk[q]]], <<>>)
         [] e.op = "newb" -> To([s EXCEPT !.bf = Empty, !.key = 0], <<>>)
         [] e.op = "addfile" -> IF Has(s.disk, e.p) /\ s.disk[e.p].dir = 0 THEN To([s EXCEPT !.bf = Put(@, e.p, Entry(s.disk, e.p))], <<>>) ELSE Ret(<<>>)
         [] e.op = "addfolder" -> To([s EXCEPT !.bf = [q \in {x \in DOMAIN s.disk : Below(e.p, x)} |-> Entry(s.disk, q)] @@ @], <<>>)
         [] e.op = "aes" -> To([s EXCEPT !.key = e.k], <<>>)
         [] e.op = "save" -> IF e.i = 9 \/ s.key \in {8, 9} THEN Ret(<<0>>)
                             ELSE To([s EXCEPT !.img = Put(@, e.i, [key |-> s.key, f |-> s.bf, ok |-> 1])], <<1>>)
         [] e.op = "cut" -> IF Has(s.img, e.i) THEN To([s EXCEPT !.img[e.i].ok = 0], <<>>) ELSE Ret(<<>>)
         [] e.op = "flip" -> IF Has(s.img, e.i) /\ s.img[e.i].key # 0 THEN To([s EXCEPT !.img[e.i].ok = 0], <<>>) ELSE Ret(<<>>)
         [] e.op = "load" -> IF Has(s.img, e.i) /\ s.img[e.i].ok = 1 /\ s.img[e.i].key = e.k
                             THEN To([s EXCEPT !.fs = Put(@, e.f, s.img[e.i].f)], <<1>>) ELSE Ret(<<0>>)
         [] e.op = "open" -> IF Has(F, e.p) THEN To([s EXCEPT !.fh = Put(@, e.h, [f |-> F[e.p], pos |-> 0])], <<1, F[e.p].dir, Len(F[e.p].data), 1>>)
                             ELSE Ret(<<0>>)
         [] e.op = "close" -> To([s EXCEPT !.fh = Del(@, e.h)], <<>>)
         [] e.op = "read" -> IF ~Has(s.fh, e.h) THEN Ret(<<>>)
                             ELSE LET x == s.fh[e.h]
                                      left == Len(x.f.data) - x.pos
                                      \* any part of what is left, with or after it the end (-1)
                                      Part(n, end) == To([s EXCEPT !.fh[e.h].pos = @ + n], SubSeq(x.f.data, x.pos + 1, x.pos + n) \o end) IN
                                  IF x.f.dir = 1 THEN Ret(<<-2>>)
                                  ELSE IF left = 0 THEN Ret(<<-1>>) \cup (IF e.n = 0 THEN Ret(<<>>) ELSE {})
                                  ELSE IF e.n = 0 THEN Ret(<<>>)
                                  ELSE UNION {Part(n, <<>>) : n \in Sizes(e, Min({left, e.n}))} \cup (IF e.n >= left THEN Part(left, <<-1>>) ELSE {})
         [] e.op = "rall" -> Ret(IF Has(F, e.p) /\ F[e.p].dir = 0 THEN <<1>> \o F[e.p].data ELSE <<0>>)
         [] e.op = "rdir" -> Ret(IF Has(F, e.p) /\ F[e.p].dir = 1 THEN <<1>> \o F[e.p].ents ELSE <<0>>)
         [] e.op = "walk" -> Ret(IF Has(F, e.p) THEN <<2 * e.p + F[e.p].dir>> \o (IF F[e.p].dir = 1 THEN Walk(F, e.p) ELSE <<>>) ELSE <<-1>>)
Internal(cfg, s, calls) == {}
OnEvent(cfg, s, calls, ev) == {}
OnTick(cfg, s, calls) == s
Overdue(cfg, s, calls) == FALSE
Lax(cfg, s, calls) == FALSE
MustGo(cfg, s, calls, c) == TRUE
Inv(cfg, s, calls) == /\ \A p \in DOMAIN s.disk : p = 0 \/ (Has(s.disk, Parent(p)) /\ s.disk[Parent(p)].dir = 1)
                      /\ \A h \in DOMAIN s.fh : s.fh[h].pos <= Len(s.fh[h].f.data)
                      /\ \A i \in DOMAIN s.img : s.img[i].key \notin {8, 9}

McCfgs == {[root |-> r] : r \in 0..2}
McOneCfg == {[root |-> 0]}
\* building and saving
McOps(cfg, s, calls) ==
  {[op |-> "put", p |-> p, d |-> d] : p \in {4}, d \in {<<>>, <<5, 6>>}}
  \cup {[op |-> "mkdir", p |-> 1], [op |-> "del", p |-> 1]}
  \cup {[op |-> o, p |-> p] : o \in {"addfile", "addfolder"}, p \in {1, 4}}
  \cup {[op |-> "aes", k |-> k] : k \in {1, 9}} \cup {[op |-> "newb"]}
  \cup {[op |-> "save", i |-> 1], [op |-> "flip", i |-> 1, p |-> 9], [op |-> "cut", i |-> 1, p |-> 5]}
  \cup {[op |-> "load", i |-> 1, k |-> k, f |-> 1] : k \in 0..1}
  \cup {[op |-> "rall", f |-> 1, p |-> 4]}
\* reading what is fixed
McOps2(cfg, s, calls) ==
  IF ~Has(s.disk, 4) THEN {[op |-> "put", p |-> 4, d |-> <<5, 6, 7>>], [op |-> "mkdir", p |-> 1], [op |-> "mkdir", p |-> 2]}
  ELSE IF ~Has(s.img, 1) THEN {[op |-> "addfolder", p |-> p] : p \in {0, 1}} \cup {[op |-> "addfile", p |-> 4], [op |-> "save", i |-> 1]}
  ELSE IF ~Has(s.fs, 1) THEN {[op |-> "load", i |-> 1, k |-> 0, f |-> 1]}
  ELSE {[op |-> o, f |-> 1, p |-> p] : o \in {"rall", "rdir", "walk"}, p \in {0, 1, 2, 4}}
       \cup {[op |-> "open", f |-> 1, p |-> p, h |-> h] : p \in {1, 4}, h \in 1..2}
       \cup {[op |-> "read", h |-> h, n |-> n] : h \in 1..2, n \in 0..4}
McEvents(cfg, s, calls) == {}
McBound(cfg, s) == TRUE
=============================================================================
