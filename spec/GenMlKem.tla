------------------------------- MODULE GenMlKem -------------------------------
(* C14: ML-KEM-768 key generation, encapsulation, decapsulation.                 *)
EXTENDS Gen, MlKem

Big == IF Thorough THEN 10 ELSE 1
Kg(seed) == [op |-> "mlkem.keygen", h |-> "d", seed |-> seed]
LdE(ek) == [op |-> "mlkem.loadek", h |-> "e", ek |-> ek]
EncM(m) == [op |-> "mlkem.encapsm", h |-> "e", m |-> m]
Dec(c) == [op |-> "mlkem.decaps", h |-> "d", ct |-> c, api |-> "ref"]
DecOnce(c) == [op |-> "mlkem.decaps", h |-> "d", ct |-> c, api |-> "once"]
Rng(b, then) == [op |-> "rng.set", bytes |-> b, then |-> then, fill |-> 0]
SeedOf(i) == CASE i = 1 -> BZero(64) [] i = 2 -> BRep(255, 64) [] i = 3 -> BCat(BZero(32), BRep(255, 32)) [] i = 4 -> BCat(BRep(255, 32), BZero(32))
               [] OTHER -> D(<<"seed", i>>, 64)
MsgOf(i) == CASE i = 1 -> BZero(32) [] i = 2 -> BRep(255, 32) [] i = 3 -> BRep(85, 32) [] i = 4 -> BRep(170, 32) [] i \in 5..260 -> BFlip(BZero(32), i - 5)
              [] OTHER -> D(<<"msg", i>>, 32)
K0 == MlKeyGen(SeedOf(7))
\* seeds which together show every pattern of accepted and rejected values that eight
\* consecutive samples can have (found by search)
RejSeeds == <<5174, 18705, 3982, 5990, 21558, 424, 13109, 2932, 8772, 14009, 20330, 9060, 2202, 4276, 4584, 11699, 600, 3030, 8021, 13962, 1005, 1694>>
C0 == MlEncaps(K0.ek, MsgOf(300))
SetCoef(b, i, v) ==
    LET o == 3 * (i \div 2) IN
    IF i % 2 = 0 THEN BSet(BSet(b, o, v % 256), o + 1, (BAt(b, o + 1) \div 16) * 16 + (v \div 256))
    ELSE BSet(BSet(b, o + 1, (BAt(b, o + 1) % 16) + 16 * (v % 16)), o + 2, v \div 16)
BadVals == <<3329, 3330, 3331, 3328 + 256, 3328 + 512, 4094, 4095, 3328, 0, 2048, 3329 + 15>>
\* an encapsulation key whose A[i, j] takes more than three SHAKE128 blocks
LongRho(i, j) == Rnd(<<"rho", i, j, <<<<290, 56, 153>>, <<150, 437, 216>>, <<103, 29, 55>>>>[i + 1][j + 1]>>, 32)
ASSUME \A i \in 0..2, j \in 0..2 : Len(Accept(Xof("shake128", BCatSeq(<<LongRho(i, j), BOf(<<j, i>>)>>), 504), 0, << >>)) < 256
FillEk(v, rho) == BCat(BCatSeq([i \in 1..384 |-> BOf(<<v % 256, (v \div 256) + 16 * (v % 16), v \div 16>>)]), rho)
Two(a, b, x) == LET c == BSet(C0.ct, a, (BAt(C0.ct, a) + x) % 256) IN BSet(c, b, (BAt(c, b) + 256 - x) % 256)
XorTwo(a, b, k) == BFlip(BFlip(C0.ct, 8 * a + k), 8 * b + k)

Cases ==
   [k : {"kat"}, i : 1..(24 * Big)]
   \cup [k : {"gen"}, i : 1..(12 * Big)]
   \cup [k : {"rngfail"}, n : {0, 1, 31, 32, 63}]
   \cup [k : {"enc"}, i : 1..(20 * Big)]
   \cup [k : {"bits"}, i : 0..15]
   \cup [k : {"coef"}, i : 0..767]
   \cup [k : {"coefv"}, i : 0..767]
   \cup [k : {"fill"}, v : {0, 1, 1664, 1665, 3328, 3327, 2048, 255, 256}]
   \cup [k : {"rho"}, i : 0..2, j : 0..2]
   \cup [k : {"flip"}, g : 0..33]
   \cup [k : {"two"}, g : 0..15]
   \cup [k : {"ctx"}, i : 1..12]
   \cup [k : {"other"}, i : 1..(6 * Big)]
   \cup [k : {"mix"}, i : 1..(6 * Big)]
   \cup [k : {"rej"}, i : 1..Len(RejSeeds)]
Sc(x) ==
  LET id == ToString(<<"mk", x>>) IN
  CASE x.k = "kat" -> LET s == SeedOf(x.i)  k == MlKeyGen(s) IN
        Scenario(id, <<Kg(s)>> \o Concats([j \in 1..4 |-> LET m == IF j = 1 THEN MsgOf(1 + (x.i % 5)) ELSE D(<<x, j>>, 32) IN
            <<LdE(k.ek), EncM(m), Dec(MlEncaps(k.ek, m).ct)>>]) \o <<DecOnce(MlEncaps(k.ek, MsgOf(300)).ct)>>)
    [] x.k = "gen" -> \* system randomness, chosen so that the ciphertext is known here
        LET s == D(<<x, "s">>, 64)  m == D(<<x, "m">>, 32)  k == MlKeyGen(s) IN
        Scenario(id, <<Rng(BCat(s, m), "fail"), [op |-> "mlkem.generate", h |-> "d"], LdE(k.ek), [op |-> "mlkem.encaps", h |-> "e"], DecOnce(MlEncaps(k.ek, m).ct)>>)
    [] x.k = "rngfail" -> Scenario(id, <<Rng(BRep(3, x.n), "fail"), [op |-> "mlkem.generate", h |-> "d"], LdE(K0.ek), Rng(BRep(3, Min(x.n, 31)), "fail"), [op |-> "mlkem.encaps", h |-> "e"],
            Rng("", "prng"), [op |-> "mlkem.generate", h |-> "d"], LdE(K0.ek), [op |-> "mlkem.encaps", h |-> "e"]>>)
    [] x.k = "enc" -> LET ek == MlKeyGen(SeedOf(x.i + 100)).ek IN
        Scenario(id, Concats([j \in 1..12 |-> <<LdE(ek), EncM(D(<<x, j>>, 32))>>]))
    [] x.k = "bits" -> Scenario(id, Concats([j \in 1..16 |-> <<LdE(K0.ek), EncM(BFlip(BZero(32), 16 * x.i + j - 1))>>]))
    [] x.k = "coef" -> Scenario(id, [j \in 1..3 |-> LdE(SetCoef(K0.ek, x.i, <<3329, 4095, 3328>>[j]))])
    [] x.k = "coefv" -> Scenario(id, <<LdE(SetCoef(K0.ek, x.i, BadVals[1 + (x.i % Len(BadVals))]))>>)
    [] x.k = "fill" -> Scenario(id, Concats([j \in 1..3 |-> <<LdE(FillEk(x.v, D(<<x, j>>, 32))), EncM(D(<<x, j, "m">>, 32))>>]))
    [] x.k = "rho" -> LET rho == LongRho(x.i, x.j)  ek == BCat(BHead(K0.ek, 1152), rho) IN Scenario(id, <<LdE(ek), EncM(D(<<x>>, 32)), LdE(ek), EncM(MsgOf(1))>>)
    [] x.k = "flip" -> Scenario(id, <<Kg(SeedOf(7)), Dec(C0.ct)>> \o [j \in 1..32 |-> Dec(BFlip(C0.ct, 8 * (32 * x.g + j - 1) + RndN(<<Seed, x, j>>, 8)))] \o <<Dec(C0.ct)>>)
    [] x.k = "two" -> \* differences that cancel when summed or xored
        Scenario(id, <<Kg(SeedOf(7))>> \o [j \in 1..24 |->
            LET d == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 544, 31>>[1 + (j % 12)]
                a == RndN(<<Seed, x, j>>, 1088 - d)
            IN  Dec(IF j <= 12 THEN Two(a, a + d, 1 + RndN(<<Seed, x, j, 1>>, 255)) ELSE XorTwo(a, a + d, RndN(<<Seed, x, j, 2>>, 8)))])
    [] x.k = "ctx" -> Scenario(id, <<Kg(SeedOf(7)), Dec(CASE x.i = 1 -> BZero(1088) [] x.i = 2 -> BRep(255, 1088) [] x.i = 3 -> BRep(85, 1088) [] x.i = 4 -> BRev(C0.ct)
            [] x.i = 5 -> BCat(BHead(C0.ct, 960), BZero(128)) [] x.i = 6 -> BCat(BZero(960), BTail(C0.ct, 960)) [] x.i = 7 -> BCat(BHead(C0.ct, 960), BRep(255, 128)) [] OTHER -> D(<<x>>, 1088))>>)
    [] x.k = "other" -> Scenario(id, <<Kg(SeedOf(x.i + 50)), Dec(C0.ct), Kg(SeedOf(7)), Dec(C0.ct), Dec(MlEncaps(MlKeyGen(SeedOf(x.i + 50)).ek, MsgOf(300)).ct)>>)
    [] x.k = "mix" -> \* same d, other z: same encapsulation key, different implicit rejection
        LET s == D(<<x>>, 64)  k == MlKeyGen(s)  c == MlEncaps(k.ek, MsgOf(301)).ct IN
        Scenario(id, <<Kg(s), Dec(c), Dec(BFlip(c, 3)), Kg(BCat(BHead(s, 32), BZero(32))), Dec(c), Dec(BFlip(c, 3)), Dec(BFlip(c, 8703))>>)
    [] x.k = "rej" -> LET s == BCat(Hash("sha256", BAscii("rej" \o ToString(RejSeeds[x.i]))), BRep(x.i, 32))  k == MlKeyGen(s)  c == MlEncaps(k.ek, MsgOf(302)).ct IN
        Scenario(id, <<Kg(s), LdE(k.ek), EncM(MsgOf(302)), Dec(c)>>)
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
