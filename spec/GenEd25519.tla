------------------------------ MODULE GenEd25519 ------------------------------
(* C10: Ed25519 signing, verification and point decoding.                       *)
EXTENDS Gen, Ed25519

LdS(h, k) == [op |-> "ed25519.load", h |-> h, fmt |-> "seed", der |-> k]
LdV(h, A) == [op |-> "ed25519.loadpub", h |-> h, fmt |-> "raw", der |-> A]
Sg(h, m, al) == [op |-> "ed25519.sign", h |-> h, m |-> m, al |-> al]
V(h, m, sig) == [op |-> "ed25519.verify", h |-> h, m |-> m, sig |-> sig, al |-> 100]
Big == IF Thorough THEN 10 ELSE 1
SeedOf(i) == CASE i = 1 -> BZero(32) [] i = 2 -> BRep(255, 32) [] i = 3 -> BRep(85, 32) [] OTHER -> D(<<"seed", i>>, 32)

Torsion == << "0100000000000000000000000000000000000000000000000000000000000000",
              "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
              "0000000000000000000000000000000000000000000000000000000000000000",
              "0000000000000000000000000000000000000000000000000000000000000080",
              "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
              "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
              "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
              "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85" >>
Tp(i) == EdDecode(Torsion[i]).pt
ASSUME \A i \in 1..8 : EdDecode(Torsion[i]).ok /\ EdMul("8", Tp(i)) = EdO

Sub(P, Q) == EdAdd(P, EdNeg(Q))
RndS(l) == NMod(OS2N(D(<<"S", l>>, 40)), EdL)
\* little-endian digit patterns
RECURSIVE Digs(_, _, _)
Digs(b, s, w) == IF w * b >= 252 THEN "0" ELSE NAdd(NMul(NInt((s + w) % (2 ^ b)), NPow2(w * b)), Digs(b, s, w + 1))
SVal(i) == CASE i = 1 -> "0" [] i = 2 -> "1" [] i = 3 -> NSub(EdL, "1") [] i = 4 -> NSub(EdL, "2") [] i = 5 -> NPow2(252) [] i = 6 -> NSub(NPow2(252), "1")
             [] i = 7 -> "2" [] i = 8 -> NPow2(128) [] i = 9 -> NSub(NPow2(128), "1") [] i = 10 -> NShr(EdL, 1) [] OTHER -> RndS(i)
SOut(i) == CASE i = 1 -> EdL [] i = 2 -> NAdd(EdL, "1") [] i = 3 -> NSub(NPow2(256), "1") [] i = 4 -> NPow2(253) [] i = 5 -> NSub(NPow2(253), "1")
             [] i = 6 -> NPow2(255) [] i = 7 -> NMul("2", EdL) [] i = 8 -> NSub(NPow2(255), "13") [] i = 9 -> NAdd(EdL, NPow2(64)) [] i = 10 -> NAdd(EdL, NPow2(128))
             [] OTHER -> NAdd(EdL, NPow2(192))

Cases ==
   [k : {"sign"}, i : 1..(60 * Big)] \cup [k : {"mlen"}, n : 0..(IF Thorough THEN 600 ELSE 290)]
   \cup [k : {"long"}, n : {1000, 4095, 4096, 20000}]
   \cup [k : {"gen"}, i : 1..(4 * Big)] \cup [k : {"genfail"}, n : {0, 31}]
   \cup [k : {"seedlen"}, n : 0..70]
   \cup [k : {"valid"}, i : 1..(40 * Big)] \cup [k : {"flip"}, b : 0..511] \cup [k : {"mflip"}, b : 0..79] \cup [k : {"siglen"}, n : 0..130]
   \cup [k : {"near"}, i : 1..NNear, r : 1..(4 * Big)]
   \cup [k : {"sbig"}, i : 1..11] \cup [k : {"splus"}, i : 1..(20 * Big), t : 1..8]
   \cup [k : {"spat"}, s : 0..63, b : {4, 5, 6}] \cup [k : {"sval"}, i : 1..30]
   \cup [k : {"tors"}, a : 1..8, i : 1..(4 * Big), t : 0..7]
   \cup [k : {"mixed"}, a : 2..8, i : 1..(3 * Big)]
   \cup [k : {"torsR"}, a : 1..8, i : 1..4]
   \cup [k : {"noncanR"}, i : 0..18, s : {0, 1}]
   \cup [k : {"ylow"}, i : 0..60, s : {0, 1}] \cup [k : {"yhigh"}, i : 1..60, s : {0, 1}] \cup [k : {"ync"}, i : 0..18, s : {0, 1}]
   \cup [k : {"yrnd"}, i : 1..(80 * Big)] \cup [k : {"ylimb"}, i : 1..(60 * Big)] \cup [k : {"publen"}, n : 0..66]
   \cup [k : {"wrongkey"}, i : 1..8]

Tries == 24
WithSign(b, s) == IF s = 1 THEN BSet(b, 31, 128 + (BAt(b, 31) % 128)) ELSE b
LimbV == <<"0000000000000000", "ffffffffffffffff", "0000000000000001", "0000000000000080", "feffffffffffffff", "ffffffff00000000", "edffffffffffffff", "ffffffffffffff7f">>
Sc(x) ==
  LET id == ToString(<<"ed", x>>) IN
  CASE x.k = "sign" -> Scenario(id, <<LdS("k", SeedOf(x.i)), Sg("k", D(<<x>>, x.i), 100), Sg("k", D(<<x, 1>>, 64 + x.i), x.i % 64)>>)
    [] x.k = "mlen" -> Scenario(id, <<LdS("k", SeedOf(7)), Sg("k", D(<<x>>, x.n), 100), Sg("k", D(<<x>>, x.n), 101)>>)
    [] x.k = "long" -> Scenario(id, <<LdS("k", SeedOf(8)), Sg("k", D(<<x>>, x.n), 100)>>)
    [] x.k = "gen" -> Scenario(id, <<[op |-> "ed25519.generate", h |-> "k"], Sg("k", D(<<x>>, 33), 100)>>)
    [] x.k = "genfail" -> Scenario(id, <<[op |-> "rng.set", bytes |-> BZero(x.n), then |-> "fail"], [op |-> "ed25519.generate", h |-> "k"]>>)
    [] x.k = "seedlen" -> Scenario(id, <<LdS("k", D(<<x>>, x.n))>>)
    [] x.k = "valid" -> LET A == EdPublic(SeedOf(x.i))  m == D(<<x>>, x.i) IN Scenario(id, <<LdV("v", A), V("v", m, EdSign(SeedOf(x.i), A, m)), V("v", BCat(m, "00"), EdSign(SeedOf(x.i), A, m))>>)
    [] x.k = "flip" -> LET A == EdPublic(SeedOf(5)) IN Scenario(id, <<LdV("v", A), V("v", "616263", BFlip(EdSign(SeedOf(5), A, "616263"), x.b))>>)
    [] x.k = "mflip" -> LET A == EdPublic(SeedOf(5))  m == D("mflip", 10) IN Scenario(id, <<LdV("v", A), V("v", BFlip(m, x.b), EdSign(SeedOf(5), A, m))>>)
    [] x.k = "siglen" -> LET A == EdPublic(SeedOf(5))  g == EdSign(SeedOf(5), A, "00") IN Scenario(id, <<LdV("v", A), V("v", "00", BHead(BCat(g, BZero(66)), x.n)), V("v", "00", BLast(BCat(BZero(66), g), x.n))>>)
    [] x.k = "sbig" -> \* public key = identity: R = [S mod L]B would verify if S were reduced
        LET S == SOut(x.i) IN Scenario(id, <<LdV("v", Torsion[1]), V("v", "aa", BCat(EdEncode(EdMul(NMod(S, EdL), EdB)), N2LE(S, 32)))>>)
    [] x.k = "splus" -> LET A == EdPublic(SeedOf(x.i + 10))  g == EdSign(SeedOf(x.i + 10), A, "0001")
                            S == NAdd(LE2N(BTail(g, 32)), NMul(NInt(x.t), EdL)) IN
        Scenario(id, <<LdV("v", A), V("v", "0001", BCat(BHead(g, 32), N2LE(S, 32))), V("v", "0001", g)>>)
    [] x.k = "near" -> \* under the identity as key the expected R depends on S alone
        LET S == RndS(<<"near", x.r>>)  R == EdEncode(EdMul(S, EdB)) IN
        Scenario(id, <<LdV("v", Torsion[1]), V("v", "aa", BCat(Near(<<x>>, R, x.i), N2LE(S, 32))), V("v", "aa", BCat(R, N2LE(S, 32)))>>)
    [] x.k = "spat" -> LET S == NMod(Digs(x.b, x.s, 0), EdL) IN Scenario(id, <<LdV("v", Torsion[1]), V("v", "aa", BCat(EdEncode(EdMul(S, EdB)), N2LE(S, 32)))>>)
    [] x.k = "sval" -> LET S == SVal(x.i) IN Scenario(id, <<LdV("v", Torsion[1]), V("v", "aa", BCat(EdEncode(EdMul(S, EdB)), N2LE(S, 32)))>>)
    [] x.k = "tors" -> LET S == SVal(x.i)  R == EdEncode(Sub(EdMul(S, EdB), EdMul(NInt(x.t), Tp(x.a)))) IN
        Scenario(id, <<LdV("v", Torsion[x.a])>> \o [j \in 1..Tries |-> V("v", D(<<x, j>>, 4), BCat(R, N2LE(S, 32)))])
    [] x.k = "mixed" -> \* A = aB + T; R = rB + tT
        LET a == RndS(<<x, "a">>)  r == RndS(<<x, "r">>)
            A == EdEncode(EdAdd(EdMul(a, EdB), Tp(x.a)))
            one(j) == LET R == EdEncode(Sub(EdMul(r, EdB), EdMul(NInt(j % 8), Tp(x.a))))
                          m == D(<<x, j>>, 5)
                          S == NAddMod(r, NMulMod(EdChallenge(R, A, m), a, EdL), EdL)
                      IN  V("v", m, BCat(R, N2LE(S, 32)))
        IN  Scenario(id, <<LdV("v", A)>> \o [j \in 1..Tries |-> one(j)])
    [] x.k = "torsR" -> \* R off the prime-order subgroup under an honest key
        LET sd == SeedOf(x.i + 20)  A == EdPublic(sd)  sk == EdSecret(sd)  r == RndS(<<x, "r">>)
            R == EdEncode(EdAdd(EdMul(r, EdB), Tp(x.a)))
            S == NAddMod(r, NMulMod(EdChallenge(R, A, "ab"), sk.a, EdL), EdL)
        IN  Scenario(id, <<LdV("v", A), V("v", "ab", BCat(R, N2LE(S, 32)))>>)
    [] x.k = "noncanR" -> \* S = 0 and A = identity, R an alternative encoding
        LET R == WithSign(N2LE(NAdd(EdP, NInt(x.i)), 32), x.s)  R2 == WithSign(N2LE(NInt(x.i), 32), x.s) IN
        Scenario(id, <<LdV("v", Torsion[1]), V("v", "aa", BCat(R, BZero(32))), V("v", "aa", BCat(R2, BZero(32)))>>)
    [] x.k = "ylow" -> Scenario(id, <<LdV("v", WithSign(N2LE(NInt(x.i), 32), x.s))>>)
    [] x.k = "yhigh" -> Scenario(id, <<LdV("v", WithSign(N2LE(NSub(EdP, NInt(x.i)), 32), x.s))>>)
    [] x.k = "ync" -> Scenario(id, <<LdV("v", WithSign(N2LE(NAdd(EdP, NInt(x.i)), 32), x.s))>>)
    [] x.k = "yrnd" -> Scenario(id, <<LdV("v", D(<<x>>, 32)), LdV("w", BFlip(D(<<x>>, 32), 255))>>)
    [] x.k = "ylimb" -> LET y == BCatSeq([j \in 1..4 |-> LimbV[1 + RndN(<<Seed, x, j>>, 8)]]) IN Scenario(id, <<LdV("v", y), LdV("w", BFlip(y, 255))>>)
    [] x.k = "publen" -> Scenario(id, <<LdV("v", BHead(BCat(Torsion[1], BZero(40)), x.n))>>)
    [] x.k = "wrongkey" -> LET A == EdPublic(SeedOf(x.i)) IN Scenario(id, <<LdV("v", EdPublic(SeedOf(x.i + 1))), LdV("n", BFlip(A, 255)), V("v", "aa", EdSign(SeedOf(x.i), A, "aa")), V("n", "aa", EdSign(SeedOf(x.i), A, "aa"))>>)
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
