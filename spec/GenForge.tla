------------------------------- MODULE GenForge -------------------------------
(* C05: everything near a genuine (nonce, aad, ciphertext, tag) that is not it. *)
EXTENDS GenAead

Sizes == <<0, 1, 15, 16, 17, 32, 63, 64, 65, 100, 127, 128, 129, 160, 255, 256, 257, 300, 511, 512, 513, 600, 1025>>
ASizes == <<0, 1, 13, 16, 17, 40, 64, 129, 256>>
NS == IF Thorough THEN Len(Sizes) ELSE Len(Sizes)
SweepsC == [k : {"sweep"}, a : Algs, n : 1..NS, m : (IF Thorough THEN 1..Len(ASizes) ELSE {1, 3, 5})]
\* bit changes one by one (also checks the error value)
Bits == [k : {"bit"}, a : Algs, n : {0, 20, 128}, b : 0..(8 * 16 - 1)]
TagLens == [k : {"taglen"}, a : Algs, n : 0..40]
TagMasks == [k : {"mask"}, a : Algs, w : 0..(IF Thorough THEN 400 ELSE 60)]
Nears == [k : {"near"}, a : Algs, i : 1..NNear, r : 1..(IF Thorough THEN 20 ELSE 3), n : {0, 40, 300}]
Moves == [k : {"move"}, a : Algs, v : 1..14, n : {0, 1, 16, 17, 33, 64, 128, 200, 256, 300, 512}]
\* long texts and long associated data
Longs == [k : {"long"}, a : Algs, n : {0, 2047, 4096, 4097, 5000, 8192, 16384, 16401, 65535, 65536, 66000, 131077}, v : 0..3]
ForgeCases == Nears \cup Longs \cup SweepsC \cup Bits \cup TagLens \cup TagMasks \cup Moves

Ftuple(a, l, n, m) ==
    LET key == D(<<a, l>>, KL(a))  nn == D(<<a, l, "n">>, NL(a))  aad == D(<<a, l, "aad">>, m)  pt == D(<<a, l, "p">>, n)
        s == SealOf(a, key, nn, aad, pt)
    IN  [key |-> key, n |-> nn, aad |-> aad, pt |-> pt, ct |-> s.ct, tag |-> s.tag]

FSc(x) ==
  LET id == ToString(<<"forge", x>>) IN
  CASE x.k = "sweep" ->
        LET f == Ftuple(x.a, x, Sizes[x.n], ASizes[x.m])
        IN  Scenario(id, <<New(x.a, f.key), Open(f.n, f.aad, f.ct, f.tag, 0),
              [op |-> "aead.sweep", h |-> "k", nonce |-> f.n, aad |-> f.aad, ct |-> f.ct, tag |-> f.tag],
              Open(f.n, f.aad, f.ct, f.tag, 100)>>)
    [] x.k = "long" ->
        LET f == Ftuple(x.a, <<x.a, x.n>>, IF x.v = 3 THEN x.n \div 8 ELSE x.n, IF x.v = 3 THEN x.n ELSE 20)
            o == CASE x.v = 0 -> Open(f.n, f.aad, f.ct, BFlip(f.tag, 127), 100)
                   [] x.v = 1 -> Open(f.n, f.aad, IF x.n = 0 THEN "00" ELSE BFlip(f.ct, 8 * x.n - 1), f.tag, 100)
                   [] x.v = 2 -> Open(f.n, f.aad, IF x.n = 0 THEN "00" ELSE BHead(f.ct, x.n - 1), f.tag, 100)
                   [] x.v = 3 -> Open(f.n, IF x.n = 0 THEN "00" ELSE BFlip(f.aad, 8 * x.n - 1), f.ct, f.tag, 100)
        IN  Scenario(id, <<New(x.a, f.key), Open(f.n, f.aad, f.ct, f.tag, 100), o, Open(f.n, f.aad, f.ct, BHead(f.tag, 15), 101)>>)
    [] x.k = "bit" ->
        LET f == Ftuple(x.a, <<x.a, x.n>>, x.n, 16)
        IN  Scenario(id, <<New(x.a, f.key), Open(f.n, f.aad, f.ct, BFlip(f.tag, x.b), 100),
              Open(BFlip(f.n, x.b % (8 * NL(x.a))), f.aad, f.ct, f.tag, 101), Open(f.n, BFlip(f.aad, x.b), f.ct, f.tag, 100)>>)
    [] x.k = "near" ->
        LET f == Ftuple(x.a, <<x.a, x.n>>, x.n, 16)
        IN  Scenario(id, <<New(x.a, f.key), Open(f.n, f.aad, f.ct, Near(<<x>>, f.tag, x.i), 100), Open(f.n, Near(<<x>>, f.aad, x.i), f.ct, f.tag, 0),
              Open(f.n, f.aad, IF x.n = 0 THEN f.ct ELSE Near(<<x>>, f.ct, x.i), f.tag, 0)>>)
    [] x.k = "taglen" ->
        LET f == Ftuple(x.a, <<x.a>>, 40, 9)
            t2 == IF x.n <= 16 THEN BHead(f.tag, x.n) ELSE BCat(f.tag, BZero(x.n - 16))
            t3 == IF x.n <= 16 THEN BTail(f.tag, 16 - x.n) ELSE BHead(BCat(f.tag, BCat(f.tag, f.tag)), x.n)
        IN  Scenario(id, <<New(x.a, f.key), Open(f.n, f.aad, f.ct, t2, 100), Open(f.n, f.aad, f.ct, t3, 101)>>)
    [] x.k = "mask" ->        \* several tag bytes wrong at once
        LET f == Ftuple(x.a, <<x.a>>, 48, 20)
            m1 == Rnd(<<x, 1>>, 16)
            b == BAt(m1, 0)
            rep == CASE x.w % 4 = 0 -> BRep(1 + (b % 255), 16)
                     [] x.w % 4 = 1 -> BXor(BCatSeq(<<BHead(m1, 8), BHead(m1, 8)>>), BZero(16))
                     [] x.w % 4 = 2 -> BSet(BSet(BZero(16), RndN(<<x, 2>>, 16), 128), 15, 128)
                     [] x.w % 4 = 3 -> m1
        IN  Scenario(id, <<New(x.a, f.key), Open(f.n, f.aad, f.ct, BXor(f.tag, rep), 0),
                           Open(f.n, f.aad, f.ct, BZero(16), 0), Open(f.n, f.aad, f.ct, BRep(255, 16), 0)>>)
    [] x.k = "move" ->
        LET f == Ftuple(x.a, <<x.a, x.n>>, x.n, 19)
            g == Ftuple(x.a, <<x.a, x.n, "other">>, x.n, 19)
            z == BZero(16)
            o == CASE x.v = 1 -> Open(f.n, BCat(f.aad, "00"), f.ct, f.tag, 0)
                   [] x.v = 2 -> Open(f.n, BHead(f.aad, 18), f.ct, f.tag, 0)
                   [] x.v = 3 -> Open(f.n, BCat(f.aad, BHead(f.ct, Min(1, x.n))), BTail(f.ct, Min(1, x.n)), f.tag, 0)
                   [] x.v = 4 -> Open(f.n, BHead(f.aad, 18), BCat(BTail(f.aad, 18), f.ct), f.tag, 0)
                   [] x.v = 5 -> Open(f.n, f.aad, BCat(f.ct, "00"), f.tag, 0)
                   [] x.v = 6 -> Open(f.n, f.aad, BHead(f.ct, Max(x.n - 1, 0)), f.tag, 0)
                   [] x.v = 7 -> Open(f.n, f.aad, BCat(f.ct, BPad16(f.ct)), f.tag, 0)
                   [] x.v = 8 -> Open(f.n, BCat(f.aad, BPad16(f.aad)), f.ct, f.tag, 0)
                   [] x.v = 9 -> Open(g.n, f.aad, f.ct, f.tag, 0)
                   [] x.v = 10 -> Open(f.n, f.ct, f.aad, f.tag, 0)
                   [] x.v = 11 -> Open(f.n, "", f.ct, f.tag, 0)
                   [] x.v = 12 -> Open(f.n, f.aad, BCat(f.ct, f.tag), "", 0)
                   [] x.v = 13 -> Open(f.n, f.aad, "", f.tag, 0)
                   [] x.v = 14 -> Open(f.n, BCat(f.aad, f.ct), "", f.tag, 0)
        IN  Scenario(id, <<New(x.a, f.key), o, New(x.a, g.key), Open(f.n, f.aad, f.ct, f.tag, 0)>>)

InitF == GenInit(ForgeCases)
NextF == GenNext(FSc)
=============================================================================
