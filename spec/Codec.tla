-------------------------------- MODULE Codec --------------------------------
(* The codecs of package net, on sequences of bytes.  An int (64 bits) is its 8 bytes, lowest first. *)
(* Results: the bytes, then 1 if the arguments were not changed.                                     *)
EXTENDS Obj

Bytes(q) == [i \in 1..Len(q) |-> q[i]]
Pad(q, n, x) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE x]
RECURSIVE Join(_)
Join(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Join(Tail(qs))
Sign(q) == IF q[8] >= 128 THEN 255 ELSE 0
Bit(b, i) == (b \div 2^i) % 2
BitsOf(q) == [i \in 1..(8 * Len(q)) |-> Bit(q[(i - 1) \div 8 + 1], (i - 1) % 8)]
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
ByteAt(q, i) == At(q, i) + 2 * At(q, i + 1) + 4 * At(q, i + 2) + 8 * At(q, i + 3) + 16 * At(q, i + 4) + 32 * At(q, i + 5) + 64 * At(q, i + 6) + 128 * At(q, i + 7)
BytesOf(q) == [i \in 1..((Len(q) + 7) \div 8) |-> ByteAt(q, 8 * (i - 1) + 1)]
LE(n, w) == [i \in 1..w |-> (n \div 256^(i - 1)) % 256]
Rev(q) == Reverse(q)
\* the lengths of the chunks, each before its bytes
Chunks(q, n) == Join([i \in 1..((Len(q) + n - 1) \div n) |->
                      LET p == SubSeq(q, n * (i - 1) + 1, IF n * i > Len(q) THEN Len(q) ELSE n * i) IN <<-Len(p)>> \o p])
Ok == <<1>>
Fun(cfg, e) ==
  CASE e.op = "chk"    -> Ok
    [] e.op = "i2b"    -> Pad(e.d, e.n, Sign(e.d)) \o Ok                      \* GetBytesFromInt
    [] e.op = "b2i"    -> Pad(e.d, 8, 0) \o Ok                                \* GetIntFromBytes
    [] e.op = "pack"   -> (IF e.o = 1 THEN Rev(e.d) ELSE e.d) \o Ok           \* PackUint of the width of d
    [] e.op = "unpack" -> (IF e.o = 1 THEN Rev(SubSeq(e.d, 1, e.n)) ELSE SubSeq(e.d, 1, e.n)) \o Ok   \* UnpackUint into n bytes
    [] e.op = "badun"  -> <<0>>                                               \* UnpackUint into another type
    [] e.op \in {"u2b", "b2u"} -> e.d \o Ok                                   \* GetBytesFromUIntN and back
    [] e.op = "size"   -> LE(Len(e.d), e.n) \o e.d \o Ok                      \* AddSizeN
    [] e.op = "chunk"  -> Chunks(e.d, e.n) \o Ok
    [] e.op = "b2bool" -> (IF e.n < 0 THEN BitsOf(e.d) ELSE SubSeq(BitsOf(e.d), 1, e.n)) \o Ok
    [] e.op = "bool2b" -> BytesOf(e.d) \o Ok
    [] e.op = "true"   -> [i \in 1..e.n |-> 1] \o Ok
    [] e.op = "copy"   -> SubSeq(e.d, 1, e.n) \o Ok
\* decoding what was encoded gives what it was
Lemma(cfg, e, r) ==
  LET b == Front(r) IN
  CASE e.op = "i2b" /\ e.n >= 8 -> Fun(cfg, [op |-> "b2i", d |-> b]) = e.d \o Ok
    [] e.op = "b2i" -> Fun(cfg, [op |-> "i2b", d |-> b, n |-> Len(e.d)]) = e.d \o Ok \/ Len(e.d) > 8
    [] e.op = "pack" -> Fun(cfg, [op |-> "unpack", d |-> b, n |-> Len(e.d), o |-> e.o]) = e.d \o Ok
    [] e.op = "bool2b" -> Fun(cfg, [op |-> "b2bool", d |-> b, n |-> Len(e.d)]) = e.d \o Ok
    [] e.op = "b2bool" /\ e.n < 0 -> Fun(cfg, [op |-> "bool2b", d |-> b]) = e.d \o Ok
    [] e.op = "chunk" -> SelectSeq(b, LAMBDA x : x >= 0) = e.d
    [] OTHER -> TRUE
INSTANCE Pure

McCfgs == {[z |-> 0]}
Bs == {0, 1, 128, 255}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Ints == {<<a, b, 0, 0, 0, 0, 0, c>> : a \in Bs, b \in Bs, c \in Bs} \cup {<<a, 255, 255, 255, 255, 255, 255, 255>> : a \in Bs} \cup {<<1, 2, 3, 4, 5, 6, 7, 8>>}
Words == {<<1>>, <<255>>, <<1, 2>>, <<0, 255>>, <<1, 2, 3, 4>>, <<255, 0, 128, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<0, 0, 0, 128, 255, 0, 0, 255>>}
McOps(cfg, s, calls) ==
  {[op |-> "i2b", d |-> d, n |-> n] : d \in Ints, n \in 0..9}
  \cup {[op |-> "b2i", d |-> d] : d \in Seqs({0, 1, 255}, 3) \cup Ints \cup {<<1, 2, 3, 4, 5, 6, 7, 200, 9>>}}
  \cup {[op |-> "pack", d |-> d, o |-> o] : d \in Words, o \in 0..1}
  \cup {[op |-> "unpack", d |-> d \o x, n |-> Len(d), o |-> o] : d \in Words, x \in {<<>>, <<9>>}, o \in 0..1}
  \cup {[op |-> "badun", d |-> d] : d \in {<<1, 2, 3, 4, 5, 6, 7, 8>>}}
  \cup {[op |-> o, d |-> d] : o \in {"u2b", "b2u"}, d \in {w \in Words : Len(w) \in {2, 4}}}
  \cup {[op |-> "size", d |-> d, n |-> n] : d \in Seqs({0, 255}, 2) \cup {[i \in 1..300 |-> i % 256]}, n \in {2, 4}}
  \cup {[op |-> "chunk", d |-> [i \in 1..k |-> i], n |-> n] : k \in 0..9, n \in 1..10}
  \cup {[op |-> "b2bool", d |-> d, n |-> -1] : d \in Seqs(Bs \cup {90}, 2)}
  \cup {[op |-> "b2bool", d |-> <<85, 240>>, n |-> n] : n \in 0..16}
  \cup {[op |-> "bool2b", d |-> d] : d \in Seqs(0..1, 5) \cup {[i \in 1..k |-> B(i % 3 = 1)] : k \in 6..20}}
  \cup {[op |-> "true", n |-> n] : n \in 0..9}
  \cup {[op |-> "copy", d |-> <<5, 6, 7, 8>>, n |-> n] : n \in 0..4}
=============================================================================
