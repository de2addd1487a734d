------------------------------ MODULE GenRecords ------------------------------
(* C20: records of every suite: formats, sequence numbers, chunkings; records    *)
(* delivered out of order, again, modified, truncated, or made by a peer that    *)
(* knows the keys but breaks the rules.                                          *)
EXTENDS TlsCases

Lens == {0, 1, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4096, 8191, 16000, 16383, 16384}
Seqs == <<"0", "1", "ff", "100", "ffff", "10000", "7fffffff", "80000000", "ffffffff", "100000000", "123456789abcdef", "8000000000000000", "fffffffffffffffe", "ffffffffffffffff">>
SeqN == Len(Seqs)
Typs == <<20, 21, 22, 23, 24, 99, 255>>
Msg(l, n) == D(<<"m", l>>, n)

\* an authentic record with any inner plaintext: made with the keys, not by the library
Craft(n, seq, typ, inner) ==
    LET s == S(n)
        nonce == A!SeqNonce(IvEx(n), N2OS(seq, 8))
        aad == IF Is12(n) THEN A!Aad12(N2OS(seq, 8), typ, 771, BLen(inner)) ELSE A!Aad13(BLen(inner) + 16)
        x == A!AeadSeal(s.aead, Key(n), nonce, aad, inner)
    IN  BCatSeq(<<IF Is12(n) /\ s.aead = "gcm" THEN BTail(nonce, 4) ELSE "", x.ct, x.tag>>)
\* TLS 1.2 GCM with an explicit nonce of the peer's choice
CraftEx(n, ex, seq, typ, inner) ==
    LET x == A!AeadSeal("gcm", Key(n), BCat(BHead(IvEx(n), 4), ex), A!Aad12(N2OS(seq, 8), typ, 771, BLen(inner)), inner)
    IN  BCatSeq(<<ex, x.ct, x.tag>>)
Gcm12 == {n \in SuiteNames : Is12(n) /\ S(n).aead = "gcm"}
Suites12 == {n \in SuiteNames : Is12(n)}
Suites13 == SuiteNames \ Suites12
Overhead(n) == IF Is12(n) THEN (IF S(n).aead = "gcm" THEN 24 ELSE 16) ELSE 17

Cases ==
   [k : {"len"}, n : SuiteNames, l : Lens]
   \cup [k : {"seq"}, n : SuiteNames, q : 1..SeqN]
   \cup [k : {"typ"}, n : SuiteNames, y : 1..Len(Typs)]
   \cup [k : {"chunk"}, n : SuiteNames, w : 1..(IF Thorough THEN 80 ELSE 12)]
   \cup [k : {"flip"}, n : SuiteNames, b : 0..34]
   \cup [k : {"mask"}, n : SuiteNames, i : 1..NMask, r : 1..(IF Thorough THEN 10 ELSE 3)]
   \cup [k : {"cut"}, n : SuiteNames, c : {0}]
   \cup [k : {"short"}, n : SuiteNames, c : {0}]
   \cup [k : {"header"}, n : Suites12, c : 0..3]
   \cup [k : {"wrongkey"}, n : SuiteNames, c : 0..5]
   \cup [k : {"big"}, n : SuiteNames, l : {16382, 16383, 16384, 16385, 16386, 16400, 17000, 18400}]
   \cup [k : {"pad"}, n : Suites13, l : {0, 1, 15, 100, 16383, 16384, 16385}, z : {0, 1, 2, 15, 16, 31, 100, 255}]
   \cup [k : {"zeros"}, n : Suites13, z : {0, 1, 2, 16, 100, 16384, 16385, 16386}]
   \cup [k : {"expl"}, n : Gcm12, w : 1..8]
   \cup [k : {"explat"}, n : Gcm12, w : 1..5]
   \cup [k : {"over"}, n : SuiteNames, l : {16385, 16400, 17000, 20000}, w : 0..1]
   \cup [k : {"walk"}, n : SuiteNames, w : 1..(IF Thorough THEN 120 ELSE 12)]
   \cup [k : {"extract"}, n : SuiteNames, w : 1..4]
   \cup [k : {"suite"}, n : SuiteNames]
   \cup {[k |-> "provider"]}

\* the record of sequence number q, delivered at its own and at other positions
NearLens(q) == <<NMod(NAdd(q, "1"), NPow2(64)), NMod(NAdd(q, NSub(NPow2(64), "1")), NPow2(64)), NMod(NAdd(q, NPow2(32)), NPow2(64)), NMod(NAdd(q, NPow2(63)), NPow2(64)), NMod(NAdd(q, "100"), NPow2(64))>>
Ends(l, i, n) == IF i = 0 THEN 0 ELSE RndN(<<l, "end", i>>, n + 1)
RECURSIVE Cuts(_, _, _)
Cuts(l, m, i) ==     \* m split into random parts (some empty)
    IF i = 0 THEN <<m>>
    ELSE LET c == RndN(<<l, i>>, BLen(m) + 1) IN <<BHead(m, c)>> \o Cuts(l, BTail(m, c), i - 1)
\* a session: the sender's position, what is in flight, the receiver's position
RECURSIVE Walk(_, _, _, _, _)
Walk(l, n, left, sent, recv) ==
    IF left = 0 THEN << >>
    ELSE LET typ == PickS(<<l, left, "y">>, Typs)
             len == PickS(<<l, left, "z">>, <<0, 1, 16, 40, 100, RndN(<<l, left>>, 600)>>)
             act == RndN(<<l, left, "act">>, 10)
             name(i) == "r" \o ToString(i)
             t(i) == OTyp(n, PickS(<<l, "ty", i>>, Typs))
         IN  IF act < 5 \/ sent = 0
             THEN <<Seal("e", NInt(sent), PickS(<<l, "ty", sent>>, Typs), Cuts(<<l, left>>, D(<<l, left, "m">>, len), left % 4), 0, len, name(sent))>>
                  \o Walk(l, n, left - 1, sent + 1, recv)
             ELSE IF act < 8 /\ recv < sent
             THEN <<OpenOf("d", NInt(recv), t(recv), name(recv))>> \o Walk(l, n, left - 1, sent, recv + 1)
             ELSE LET i == RndN(<<l, left, "i">>, sent)        \* replay, reorder, or modify
                  IN <<OpenOf("d", NInt(recv), t(i), name(i)) @@ (IF act = 9 THEN [flip |-> RndN(<<l, left, "b">>, 128)] ELSE << >>)>>
                     \o Walk(l, n, left - 1, sent, recv)
Sc(x) ==
  LET id == ToString(<<x>>)
      n == x.n
  IN
  CASE x.k = "len" -> LET m == Msg(x.l, x.l) IN
         Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", "5", 23, <<m>>, 0, x.l, "r"), OpenOf("d", "5", 23, "r"),
                        OpenOf("d", "5", 23, "r") @@ [al |-> 100], OpenOf("d", "5", 23, "r") @@ [al |-> 101], OpenOf("d", "6", 23, "r"),
                        OpenOf("d", "5", 23, "r") @@ [cut |-> 1], OpenOf("d", "5", 23, "r") @@ [flip |-> 8 * x.l + 7]>>)
    [] x.k = "seq" -> LET q == Seqs[x.q] IN
         Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", q, 23, <<Msg(x.q, 33)>>, 0, 33, "r")>>
                      \o [j \in 1..5 |-> OpenOf("d", NearLens(q)[j], 23, "r")] \o <<OpenOf("d", q, 23, "r"), OpenOf("d", q, 23, "r")>>)
    [] x.k = "typ" -> LET y == Typs[x.y] IN
         Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", "1", y, <<Msg(x.y, 20)>>, 0, 20, "r"), OpenOf("d", "1", OTyp(n, y), "r"),
                        Seal("e", "2", y, << >>, 0, 0, "s"), OpenOf("d", "2", OTyp(n, y), "s")>>)
    [] x.k = "chunk" ->
         LET len == RndN(<<x, "l">>, 1500)  m == D(<<x>>, len)  f == RndN(<<x, "f">>, len + 1)  z == RndN(<<x, "z">>, len - f + 1) IN
         Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", "3", 22, Cuts(<<x>>, m, x.w), 0, len, "r"), OpenOf("d", "3", OTyp(n, 22), "r"),
                        Seal("e", "4", 23, Cuts(<<x, "b">>, m, 1 + x.w), f, z, "s"), OpenOf("d", "4", 23, "s"),
                        Seal("e", "5", 23, <<m>>, f, z, "u"), OpenOf("d", "5", 23, "u")>>)
    [] x.k = "mask" -> LET O(y) == OpenOf("d", "7", 23, "r") @@ y IN
         Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", "7", 23, <<Msg("f", 40)>>, 0, 40, "r"), O([xortail |-> Mask(<<x>>, 16, x.i)]), O([xortail |-> BCat(Mask(<<x>>, 8, x.i), BZero(8))]),
                        O([xortail |-> Mask(<<x>>, 8, x.i)]), O([xorhead |-> Mask(<<x>>, 16, x.i)]), O([xortail |-> Mask(<<x>>, 32, x.i)]), O(<< >>)>>)
    [] x.k = "flip" -> LET len == 5 + Overhead(n) IN
         Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", "7", 23, <<Msg("f", 5)>>, 0, 5, "r")>>
                      \o (IF x.b < len THEN [j \in 1..8 |-> OpenOf("d", "7", 23, "r") @@ [flip |-> 8 * x.b + j - 1]] ELSE << >>)
                      \o <<OpenOf("d", "7", 23, "r")>>)
    [] x.k = "cut" -> LET len == 20 + Overhead(n) IN
         Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", "7", 23, <<Msg("f", 20)>>, 0, 20, "r")>>
                      \o [j \in 1..(len + 1) |-> OpenOf("d", "7", 23, "r") @@ [cut |-> j]]
                      \o [j \in 1..len |-> OpenOf("d", "7", 23, "r") @@ [cuthead |-> j]]
                      \o <<OpenOf("d", "7", 23, "r") @@ [add |-> "00"], OpenOf("d", "7", 23, "r") @@ [add |-> BZero(16)]>>)
    [] x.k = "short" -> Scenario(id, <<Dec(n, "d")>> \o [j \in 1..60 |-> OpenRaw("d", "0", 23, D(<<x, j>>, j - 1))]
                                                    \o [j \in 1..26 |-> OpenRaw("d", "0", 23, BZero(j - 1)) @@ [al |-> 100]])
    [] x.k = "header" ->
         Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", "7", 23, <<Msg("f", x.c)>>, 0, x.c, "r")>>
                      \o [j \in 1..4 |-> OpenOf("d", "7", <<20, 21, 22, 24>>[j], "r")]
                      \o [j \in 1..4 |-> [OpenOf("d", "7", 23, "r") EXCEPT !.ver = <<768, 769, 770, 772>>[j]]]
                      \o <<OpenOf("d", "7", 23, "r")>>)
    [] x.k = "wrongkey" ->
         Scenario(id, <<Enc(n, "e"), Seal("e", "7", 23, <<Msg("f", 30)>>, 0, 30, "r"),
                        Cipher(n, "d", "dec", IF x.c < 3 THEN BFlip(Key(n), <<0, 77, 8 * S(n).klen - 1>>[x.c + 1]) ELSE Key(n),
                                              IF x.c < 3 THEN IvEx(n) ELSE BFlip(IvEx(n), <<0, 17, 31>>[x.c - 2])),
                        OpenOf("d", "7", 23, "r"), Dec(n, "f"), OpenOf("f", "7", 23, "r")>>)
    [] x.k = "big" -> LET inner == IF Is12(n) THEN BRep(7, x.l) ELSE BCat(BRep(7, x.l), "17") IN
         Scenario(id, <<Dec(n, "d"), OpenRaw("d", "2", 23, Craft(n, "2", 23, inner)), OpenRaw("d", "2", 23, Craft(n, "3", 23, inner))>>)
    [] x.k = "pad" -> LET inner == BCatSeq(<<BRep(7, x.l), "16", BZero(x.z)>>) IN
         Scenario(id, <<Dec(n, "d"), OpenRaw("d", "2", 23, Craft(n, "2", 23, inner))>>)
    [] x.k = "zeros" -> Scenario(id, <<Dec(n, "d"), OpenRaw("d", "2", 23, Craft(n, "2", 23, BZero(x.z)))>>)
    [] x.k = "expl" -> LET ex == D(<<x>>, 8)  r == CraftEx(n, ex, "9", 23, Msg(x.w, 7 * x.w)) IN
         Scenario(id, <<Dec(n, "d"), OpenRaw("d", "9", 23, r), OpenRaw("d", "a", 23, r), OpenRaw("d", "9", 23, BFlip(r, RndN(<<x>>, 64)))>>)
    [] x.k = "explat" -> LET r == CraftEx(n, <<BZero(8), BRep(255, 8), N2OS("9", 8), BSub(IvEx(n), 4, 8), "0000000000000001">>[x.w], "9", 23, Msg(x.w, 7 * x.w)) IN
         Scenario(id, <<Dec(n, "d"), OpenRaw("d", "9", 23, r), OpenRaw("d", "a", 23, r), OpenRaw("d", "0", 23, r)>>)
    [] x.k = "over" -> Scenario(id, <<Enc(n, "e"), Dec(n, "d"), Seal("e", "7", 23, IF x.w = 0 THEN <<Msg("f", x.l)>> ELSE <<Msg("f", 9), Msg("g", x.l - 9)>>, 0, x.l, "r"), OpenOf("d", "7", 23, "r")>>)
    [] x.k = "walk" -> Scenario(id, <<Enc(n, "e"), Dec(n, "d")>> \o Walk(<<x>>, n, 24, 0, 0))
    [] x.k = "extract" -> LET iv == D(<<x, "iv">>, 12)  k == D(<<x, "k">>, S(n).klen) IN
         Scenario(id, <<[op |-> "tls.extract", suite |-> n, key |-> k, iv |-> BHead(iv, IvLen(n)), ex |-> BTail(iv, IvLen(n))]>>)
    [] x.k = "suite" -> Scenario(id, <<[op |-> "tls.suite", suite |-> n]>>)
    [] x.k = "provider" -> OpenScenario(id, <<[op |-> "tls.provider"]>>)
Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
