--------------------------------- MODULE Md5 ---------------------------------
(* GetMD5Hash and GetMD5HashBytes: RFC 1321, on sequences of bytes.  A word of 32 bits is a pair of    *)
(* its upper and lower 16 bits.  Result: the 16 bytes, then the 32 characters.                          *)
EXTENDS Obj, Bitwise

M == 65536
Add(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div M) % M, l % M>>
And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or2(a, b) == <<a[1] | b[1], a[2] | b[2]>>
Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Not2(a) == <<M - 1 - a[1], M - 1 - a[2]>>
Rotl(a, n) == IF n = 16 THEN <<a[2], a[1]>>
              ELSE LET x == IF n > 16 THEN <<a[2], a[1]>> ELSE a
                       k == IF n > 16 THEN n - 16 ELSE n
                       p == 2^k
                       q == 2^(16 - k) IN
                   <<((x[1] % q) * p) + x[2] \div q, ((x[2] % q) * p) + x[1] \div q>>
K == <<<<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>, <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>, <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>, <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>, <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>, <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>, <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
S == <<7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21>>
Rot(i) == S[4 * ((i - 1) \div 16) + ((i - 1) % 4) + 1]
Init == [a |-> <<26437, 8961>>, b |-> <<61389, 43913>>, c |-> <<39098, 56574>>, d |-> <<4146, 21622>>]
Word(q, i) == <<q[i + 3] * 256 + q[i + 2], q[i + 1] * 256 + q[i]>>
RECURSIVE Rounds(_, _, _, _)
Rounds(h, q, o, i) ==
  IF i > 64 THEN h
  ELSE LET j == i - 1
           f == CASE j < 16 -> Or2(And2(h.b, h.c), And2(Not2(h.b), h.d))
                  [] j \in 16..31 -> Or2(And2(h.d, h.b), And2(Not2(h.d), h.c))
                  [] j \in 32..47 -> Xor2(h.b, Xor2(h.c, h.d))
                  [] OTHER -> Xor2(h.c, Or2(h.b, Not2(h.d)))
           g == CASE j < 16 -> j
                  [] j \in 16..31 -> (5 * j + 1) % 16
                  [] j \in 32..47 -> (3 * j + 5) % 16
                  [] OTHER -> (7 * j) % 16
           t == Add(Add(h.a, f), Add(K[i], Word(q, o + 4 * g))) IN
       Rounds([a |-> h.d, d |-> h.c, c |-> h.b, b |-> Add(h.b, Rotl(t, Rot(i)))], q, o, i + 1)
RECURSIVE Blocks(_, _, _)
Blocks(h, q, o) ==
  IF o > Len(q) THEN h
  ELSE LET x == Rounds(h, q, o, 1) IN
       Blocks([a |-> Add(h.a, x.a), b |-> Add(h.b, x.b), c |-> Add(h.c, x.c), d |-> Add(h.d, x.d)], q, o + 64)
Padded(q) == LET n == Len(q)
                 z == (119 - (n % 64)) % 64
                 bits == 8 * n IN
             q \o <<128>> \o [i \in 1..z |-> 0] \o <<bits % 256, (bits \div 256) % 256, (bits \div 65536) % 256, 0, 0, 0, 0, 0>>
BytesOf(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
Digest(q) == LET h == Blocks(Init, Padded(q), 1) IN BytesOf(h.a) \o BytesOf(h.b) \o BytesOf(h.c) \o BytesOf(h.d)
Hex(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Fun(cfg, e) == IF e.op = "chk" THEN <<1>>
               ELSE LET d == Digest(e.d) IN d \o [i \in 1..32 |-> Hex(IF i % 2 = 1 THEN d[(i + 1) \div 2] \div 16 ELSE d[i \div 2] % 16)]
Lemma(cfg, e, r) == (e.op = "md5" /\ e.d = <<>>) => r[1] = 212 /\ r[16] = 126   \* d41d8cd9...427e
INSTANCE Pure

McCfgs == {[z |-> 0]}
McOps(cfg, s, calls) == {[op |-> "md5", d |-> [i \in 1..n |-> (i * 37 + n) % 256]] : n \in 0..130}
=============================================================================
