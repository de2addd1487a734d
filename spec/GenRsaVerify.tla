----------------------------- MODULE GenRsaVerify -----------------------------
(* C11: which signatures are accepted, for every supported modulus length.      *)
EXTENDS RsaCases

Big == IF Thorough THEN 4 ELSE 1
K0 == Keys["b2048"]
\* moduli of extreme shape that are prime, so that the private exponent is known
Below(b, c) == NSub(NPow2(b), NInt(c))
Above(b, c) == NAdd(NPow2(b - 1), NInt(c))
ShapePrimes == << Below(2048, 2543), Above(2048, 2895), Below(2049, 1449), Above(2049, 3211), Below(2056, 1037), Above(2056, 165),
                  Below(2112, 887), Above(2112, 1563), Below(3072, 47), Above(3072, 7755), Below(4096, 2549), Above(4096, 579) >>
PrimeKey(n) == [n |-> n, e |-> F4, d |-> NInvMod(F4, NSub(n, "1"))]

\* EMSA-PKCS1-v1_5 encodings that differ from the right one
AlgNoNull(h) == DSeq(<<DOid(OidHash(h))>>)
Di(alg, hash) == DSeq(<<alg, DOct(hash)>>)
PadTo(k, b1, t) == BCatSeq(<<b1, BRep(255, k - BLen(t) - 3), "00", t>>)
LongTlv(tag, body) == BCatSeq(<<DByte(tag), "81", DByte(BLen(body)), body>>)
Pkcs1Mut(k, h, m, i) ==
  LET hv == Hash(h, m)  good == EmsaPkcs1(h, m, k)  alg == DSeq(<<DOid(OidHash(h)), DNull>>)  t == Di(alg, hv) IN
  CASE i = 1 -> PadTo(k, "0001", Di(AlgNoNull(h), hv))
    [] i = 2 -> PadTo(k, "0001", hv)
    [] i = 3 -> PadTo(k, "0002", t)
    [] i = 4 -> PadTo(k, "0000", t)
    [] i = 5 -> PadTo(k, "0001", DSeq(<<DSeq(<<DOid(OidHash(h)), DNull, DNull>>), DOct(hv)>>))
    [] i = 6 -> BCatSeq(<<"0001", BRep(255, 8), "00", t, BZero(k - BLen(t) - 11)>>)            \* short padding, garbage after
    [] i = 7 -> BCatSeq(<<"0001", BRep(255, 8), "00", t, D(<<h, i>>, k - BLen(t) - 11)>>)
    [] i = 8 -> BCatSeq(<<"0001", BRep(255, 20), "00", BRep(255, k - BLen(t) - 24), "00", t>>)
    [] i = 9 -> PadTo(k, "0001", LongTlv(48, BCat(alg, DOct(hv))))
    [] i = 10 -> PadTo(k, "0001", DSeq(<<alg, LongTlv(4, hv)>>))
    [] i = 11 -> PadTo(k, "0001", DSeq(<<LongTlv(48, BCat(DOid(OidHash(h)), DNull)), DOct(hv)>>))
    [] i = 12 -> PadTo(k, "0001", Di(DSeq(<<DOid(OidHash(IF h = "sha256" THEN "sha384" ELSE "sha256")), DNull>>), hv))
    [] i = 13 -> PadTo(k, "0001", Di(alg, BHead(hv, HLen(h) - 1)))
    [] i = 14 -> PadTo(k, "0001", Di(alg, BCat(hv, "00")))
    [] i = 15 -> PadTo(k, "0001", BCat(t, "00"))
    [] i = 16 -> PadTo(k, "0001", Di(alg, Hash(h, BCat(m, "00"))))
    [] i = 17 -> BCatSeq(<<"0001", BRep(0, k - BLen(t) - 3), "00", t>>)
    [] i = 18 -> BCatSeq(<<"0001", BRep(254, k - BLen(t) - 3), "00", t>>)
    [] i = 19 -> BCatSeq(<<"0001", BRep(255, k - BLen(t) - 3), "ff", t>>)
    [] i = 20 -> PadTo(k, "0001", DSeq(<<DSeq(<<DOid(OidHash(h)), "0500", "0500">>), DOct(hv)>>))
    [] i = 21 -> PadTo(k, "0001", Di(alg, BZero(HLen(h))))
    [] i = 22 -> BZero(k)
    [] i = 23 -> N2OS("1", k)
    [] i = 24 -> good
    [] i = 25 -> PadTo(k, "0001", Di(DSeq(<<DOid(OidHash(h)), "0501", "00">>), hv))
    [] i = 26 -> BCatSeq(<<"0001", BRep(255, 0), "00", t, BZero(k - BLen(t) - 3)>>)
    [] i = 27 -> PadTo(k, "0001", Di(alg, BSet(hv, HLen(h) - 1, (BAt(hv, HLen(h) - 1) + 1) % 256)))
    [] i = 28 -> PadTo(k, "0001", Di(alg, BSet(hv, 0, (BAt(hv, 0) + 128) % 256)))
\* EMSA-PSS encodings that differ from the right one
PssWith(n, H, db) == LET mdb == BXor(db, Mgf1(<<"sha256", "sha384", "sha512">>[IF BLen(H) = 32 THEN 1 ELSE IF BLen(H) = 48 THEN 2 ELSE 3], H, BLen(db)))
                     IN  BCatSeq(<<BSet(mdb, 0, BAt(mdb, 0) % (TopMask(n) + 1)), H, "bc">>)
PssMut(n, h, m, i) ==
  LET emLen == PssLen(n)  hl == HLen(h)  salt == Salt(<<h, i>>, h)  good == EmsaPss(h, m, n, salt)
      dbl == emLen - hl - 1
      withSalt(s) == PssWith(n, PssHash(h, m, s), BCatSeq(<<BZero(dbl - BLen(s) - 1), "01", s>>))
      H == PssHash(h, m, salt)
  IN
  CASE i = 1 -> withSalt("")
    [] i = 2 -> withSalt(D(<<h, i>>, 20))
    [] i = 3 -> withSalt(D(<<h, i>>, hl - 1))
    [] i = 4 -> withSalt(D(<<h, i>>, hl + 1))
    [] i = 5 -> withSalt(D(<<h, i>>, dbl - 1))
    [] i = 6 -> withSalt(BZero(hl))
    [] i = 7 -> withSalt(BRep(255, hl))
    [] i = 8 -> BSet(good, emLen - 1, 204)
    [] i = 9 -> BSet(good, emLen - 1, 0)
    [] i = 10 -> PssWith(n, H, BCatSeq(<<BZero(dbl - hl - 1), "02", salt>>))
    [] i = 11 -> PssWith(n, H, BCatSeq(<<BZero(dbl - hl - 1), "00", salt>>))
    [] i = 12 -> PssWith(n, H, BCatSeq(<<BZero(dbl - hl - 2), "0101", salt>>))
    [] i = 13 -> PssWith(n, H, BCatSeq(<<BRep(1, dbl - hl - 1), "01", salt>>))
    [] i = 14 -> PssWith(n, H, BCatSeq(<<"01", BZero(dbl - hl - 2), "01", salt>>))
    [] i = 15 -> PssWith(n, Hash(h, BCat(Hash(h, m), salt)), BCatSeq(<<BZero(dbl - hl - 1), "01", salt>>))   \* no 8 zero octets
    [] i = 16 -> PssWith(n, Hash(h, BCatSeq(<<BZero(8), m, salt>>)), BCatSeq(<<BZero(dbl - hl - 1), "01", salt>>))
    [] i = 17 -> BCatSeq(<<BHead(good, dbl), BZero(hl), "bc">>)
    [] i = 18 -> \* mask made with another hash
        LET db == BCatSeq(<<BZero(dbl - hl - 1), "01", salt>>)  mdb == BXor(db, Mgf1(IF h = "sha256" THEN "sha384" ELSE "sha256", H, dbl))
        IN  BCatSeq(<<BSet(mdb, 0, BAt(mdb, 0) % (TopMask(n) + 1)), H, "bc">>)
    [] i = 19 -> BCatSeq(<<BCatSeq(<<BZero(dbl - hl - 1), "01", salt>>), H, "bc">>)                          \* not masked
    [] i = 20 -> BZero(emLen)
    [] i = 21 -> BCat(BZero(emLen - 1), "bc")
    [] i = 22 -> good
    [] i = 23 -> EmsaPss(h, BCat(m, "00"), n, salt)
    [] i = 24 -> PssWith(n, H, BCatSeq(<<BZero(dbl - hl - 1), "01", D(<<h, i>>, hl)>>))                      \* another salt
    [] i = 25 -> BSet(good, 0, (BAt(good, 0) + ((TopMask(n) + 1) % 256)) % 256)                                        \* an excess top bit (if it fits)
Mut(n, pad, h, m, i) == IF pad = "pkcs1" THEN Pkcs1Mut(ModLen(n), h, m, i) ELSE PssMut(n, h, m, i)
NMut(pad) == IF pad = "pkcs1" THEN 28 ELSE 25

\* small signatures: with e = 3 and any s, n = (s^3 - EM) / t works as a modulus if it is odd
SmallSig(i) ==
  LET s0 == NAdd(NShr(OS2N(BSet(D(<<"smallsig", i>>, 86), 0, 7)), 0), "0")
      s == NAdd(NSub(NPow2(683 + (i % 3)), NInt(1 + i)), IF i % 4 = 0 THEN "0" ELSE OS2N(D(<<"ss", i>>, 40)))
      cube == NMul(s, NMul(s, s))
      k == (NBits(cube) + 7) \div 8
      m == D(<<"ssm", i>>, 4)
      em == OS2N(EmsaPkcs1("sha256", m, k))
      n == NSub(cube, em)
  IN  [n |-> n, s |-> s, m |-> m, k |-> k, use |-> Odd(n) /\ NBits(n) > 8 * (k - 1)]

\* a message whose signature starts with z zero bytes
RECURSIVE ShortMsg(_, _, _, _)
ShortMsg(k, pad, z, i) ==
   LET m == N2OS(NInt(i), 3) IN IF BHead(SigOf(k, pad, "sha256", m, BZero(32)), z) = BZero(z) THEN m ELSE ShortMsg(k, pad, z, i + 1)

Lens == {0, 1, 8, 100, 247, 248, 254, 255, 257, 258, 260, 264, 512, 1023, 1024, 1025, 1032, 2000}
KL(nm) == ModLen(Keys[nm].n)
Cases ==
   [k : {"valid"}, nm : Sizes \cup Large, pad : Pads, h : 1..3]
   \cup [k : {"refused"}, nm : Refused]
   \cup [k : {"exp"}, i : 1..8, pad : Pads, h : 1..3]
   \cup [k : {"badexp"}, i : 1..18]
   \cup [k : {"badmod"}, i : 1..14]
   \cup [k : {"mut"}, nm : {"b2048", "b2049", "b2054", "b2112", "b3072"} \cup (IF Thorough THEN Sizes ELSE {}), pad : Pads, h : 1..3, i : 1..28]
   \cup [k : {"embyte"}, pad : Pads, h : {1 + (Seed % 3)} \cup (IF Thorough THEN 1..3 ELSE {}), b : 0..255]
   \cup [k : {"ps"}, nm : {"b2048", "b2050", "b2112"}, h : 1..3, i : 1..12]
   \cup [k : {"near"}, pad : Pads, h : 1..3, i : 1..NNear]
   \cup [k : {"flip"}, pad : Pads, i : 0..63]
   \cup [k : {"len"}, nm : {"b2048", "b2056", "b2041", "b4096"}, pad : Pads, n : Lens]
   \cup [k : {"lead"}, nm : {"b2048", "b2055", "b2049"}, pad : Pads]
   \cup [k : {"short"}, pad : Pads, c : 0..(IF Thorough THEN 7 ELSE 1)]
   \cup [k : {"range"}, nm : {"b2048", "b2047", "b2050", "b2054", "b8191"}, pad : Pads, i : 1..12]
   \cup [k : {"small"}, i : 1..(40 * Big)]
   \cup [k : {"prime"}, i : 1..Len(ShapePrimes), pad : Pads, h : {1, 3}]
   \cup [k : {"cross"}, pad : Pads, h : 1..3]
   \cup [k : {"msg"}, pad : Pads, h : 1..3, n : {0, 1, 55, 56, 63, 64, 111, 112, 127, 128, 1000}]
   \cup [k : {"rnd"}, i : 1..(30 * Big)]
   \cup [k : {"der"}, i : 1..30]

Sc(x) ==
  LET id == ToString(<<"rv", x>>) IN
  CASE x.k = "valid" -> LET k == Keys[x.nm]  h == Hashes[x.h]  sig == SigOf(k, x.pad, h, M0, Salt(x, h)) IN
        Scenario(id, <<LdPub("k", k.n, k.e), V("k", x.pad, h, M0, sig), V("k", x.pad, h, BCat(M0, "00"), sig), V("k", x.pad, h, M0, BFlip(sig, 7))>>)
    [] x.k = "refused" -> Scenario(id, <<LdPub("k", Keys[x.nm].n, F4)>>)
    [] x.k = "exp" -> LET k == KeysE[x.i]  h == Hashes[x.h]  sig == SigOf(k, x.pad, h, M0, Salt(x, h)) IN
        Scenario(id, <<LdPub("k", k.n, k.e), V("k", x.pad, h, M0, sig), V("k", x.pad, h, BCat(M0, "00"), sig)>>)
    [] x.k = "badexp" -> LET es == <<"0", "1", "2", "4", "6", "10000", "fffffffe", "80000000", "100000001", "100000003", "10000000000010001", "ffffffffffffffff",
                                     "fffffffffffffffff", "100010000000000000001", "10002", "200000000000000000000001", K0.d, "100000000">> IN
        OpenScenario(id, <<LdPub("k", K0.n, es[x.i])>>)
    [] x.k = "badmod" -> LET n == K0.n
                             ns == <<"0", "1", "3", NShr(n, 8), NAdd(n, "1"), NPow2(2047), NAdd(NPow2(2039), "1"), NSub(NPow2(2040), "1"), NAdd(NPow2(2040), "1"),
                                     NSub(NPow2(8192), "1"), NAdd(NPow2(8192), "1"), NPow2(8192), NAdd(NPow2(9000), "1"), NSub(NPow2(2048), "1")>> IN
        Scenario(id, <<LdPub("k", ns[x.i], F4)>>)
    [] x.k = "mut" -> LET k == Keys[x.nm]  h == Hashes[x.h]  v == OS2N(Mut(k.n, x.pad, h, M0, x.i)) IN
        IF x.i > NMut(x.pad) \/ ~NLt(v, k.n) THEN Scenario(id, <<LdPub("k", k.n, k.e)>>)
        ELSE Scenario(id, <<LdPub("k", k.n, k.e), V("k", x.pad, h, M0, N2OS(RsaRoot(k, v), ModLen(k.n)))>>)
    [] x.k = "embyte" -> LET h == Hashes[x.h]  em == N2OS(Em(K0.n, x.pad, h, M0, Salt("eb", h)), 256)
                             v == OS2N(BFlip(em, 8 * x.b + RndN(<<Seed, x>>, 8))) IN
        IF ~NLt(v, K0.n) THEN Scenario(id, <<LdPub("k", K0.n, K0.e)>>)
        ELSE Scenario(id, <<LdPub("k", K0.n, K0.e), V("k", x.pad, h, M0, N2OS(RsaRoot(K0, v), 256))>>)
    [] x.k = "ps" -> \* nonzero padding before the salt whose bytes cancel, in pairs and all together
        LET k == Keys[x.nm]  h == Hashes[x.h]  hl == HLen(h)  dbl == PssLen(k.n) - hl - 1  pl == dbl - hl - 1  salt == Salt(<<x>>, h)
            a == 1 + RndN(<<Seed, x, 1>>, pl - 2)  b == IF a < pl - 1 THEN a + 1 ELSE 1  v == 1 + RndN(<<Seed, x, 2>>, 255)
            two(p, q, u, w) == BSet(BSet(BZero(pl), p, u), q, w)
            ps == CASE x.i = 1 -> two(a, b, v, 256 - v) [] x.i = 2 -> two(a, b, v, v) [] x.i = 3 -> two(a, b, 128, 128) [] x.i = 4 -> two(1, pl - 1, v, 256 - v)
                    [] x.i = 5 -> two(1, pl - 1, v, v) [] x.i = 6 -> two(a, b, 255, 1) [] x.i = 7 -> BRep(1, pl) [] x.i = 8 -> BSet(BRep(0, pl), a, 1)
                    [] x.i = 9 -> BSet(BZero(pl), pl - 1, 255) [] x.i = 10 -> BSet(BZero(pl), 1, 128) [] x.i = 11 -> two(1, pl - 1, 128, 128)
                    [] x.i = 12 -> BCat("00", BRep(IF (pl - 1) % 2 = 0 THEN 128 ELSE 85, pl - 1))
            v0 == OS2N(PssWith(k.n, PssHash(h, M0, salt), BCatSeq(<<ps, "01", salt>>))) IN
        IF ~NLt(v0, k.n) THEN Scenario(id, <<LdPub("k", k.n, k.e)>>)
        ELSE Scenario(id, <<LdPub("k", k.n, k.e), V("k", "pss", h, M0, N2OS(RsaRoot(k, v0), ModLen(k.n)))>>)
    [] x.k = "near" -> \* the encoding with its hash, its padding or all of it changed in cancelling ways
        LET h == Hashes[x.h]  hl == HLen(h)  em == N2OS(Em(K0.n, x.pad, h, M0, Salt("eb", h)), 256)
            off == IF x.pad = "pkcs1" THEN 256 - hl ELSE 255 - hl
            e1 == BCatSeq(<<BHead(em, off), Near(<<x, 1>>, BSub(em, off, hl), x.i), BTail(em, off + hl)>>)
            e2 == BCat(BHead(em, 1), Near(<<x, 2>>, BTail(em, 1), x.i))
            e3 == BCatSeq(<<BHead(em, 2), Near(<<x, 3>>, BSub(em, 2, 150), x.i), BTail(em, 152)>>)
            salt == Salt(<<x>>, h)
            e4 == IF x.pad = "pkcs1" THEN em ELSE N2OS(OS2N(PssWith(K0.n, Near(<<x, 4>>, PssHash(h, M0, salt), x.i), BCatSeq(<<BZero(PssLen(K0.n) - 2 * hl - 2), "01", salt>>))), 256)
            ok(e) == NLt(OS2N(e), K0.n)
            sg(e) == V("k", x.pad, h, M0, N2OS(RsaRoot(K0, OS2N(e)), 256)) IN
        Scenario(id, <<LdPub("k", K0.n, K0.e)>> \o (IF ok(e1) THEN <<sg(e1)>> ELSE << >>) \o (IF ok(e2) THEN <<sg(e2)>> ELSE << >>) \o (IF ok(e3) THEN <<sg(e3)>> ELSE << >>) \o (IF ok(e4) THEN <<sg(e4)>> ELSE << >>))
    [] x.k = "flip" -> LET sig == SigOf(K0, x.pad, "sha256", M0, Salt("f", "sha256")) IN
        Scenario(id, <<LdPub("k", K0.n, K0.e)>> \o [j \in 1..32 |-> V("k", x.pad, "sha256", M0, BFlip(sig, 32 * x.i + j - 1))])
    [] x.k = "len" -> LET k == Keys[x.nm]  L == ModLen(k.n)  sig == SigOf(k, x.pad, "sha384", M0, Salt("l", "sha384")) IN
        Scenario(id, <<LdPub("k", k.n, k.e), V("k", x.pad, "sha384", M0, BHead(BCat(sig, BZero(2000)), x.n)), V("k", x.pad, "sha384", M0, BLast(BCat(BZero(2000), sig), x.n)),
                       V("k", x.pad, "sha384", M0, BCat(sig, BZero((x.n % 16) + 1))), V("k", x.pad, "sha384", M0, BCat(BZero((x.n % 16) + 1), sig))>>)
    [] x.k = "lead" -> \* signatures that really begin with a zero byte, with it stripped, and with more of them
        LET k == Keys[x.nm]  m == ShortMsg(k, x.pad, 1, 0)  sig == SigOf(k, x.pad, "sha256", m, BZero(32)) IN
        Scenario(id, <<LdPub("k", k.n, k.e), V("k", x.pad, "sha256", m, sig), V("k", x.pad, "sha256", m, BTail(sig, 1)), V("k", x.pad, "sha256", m, BCat("00", sig)),
                       V("k", x.pad, "sha256", m, BCat(BZero(8), sig)), V("k", x.pad, "sha256", m, BCat(BTail(sig, 1), "00"))>>)
    [] x.k = "short" -> LET k == KeysE[1 + (x.c % 8)]  m == ShortMsg(k, x.pad, 1, 50000 * x.c)  sig == SigOf(k, x.pad, "sha256", m, BZero(32)) IN
        Scenario(id, <<LdPub("k", k.n, k.e), V("k", x.pad, "sha256", m, sig), V("k", x.pad, "sha256", m, BTail(sig, 1))>>)
    [] x.k = "range" -> LET k == Keys[x.nm]  L == ModLen(k.n)  n == k.n  s == OS2N(SigOf(k, x.pad, "sha256", M0, Salt("r", "sha256")))
                            top == NSub(NPow2(8 * L), "1")
                            v == <<"0", "1", "2", NSub(n, "1"), n, NAdd(n, "1"), NSub(n, s), NAdd(n, s), NAdd(n, NAdd(n, s)), top, k.p, NSub(n, k.q)>>[x.i] IN
        Scenario(id, <<LdPub("k", n, k.e), V("k", x.pad, "sha256", M0, IF NBits(v) <= 8 * L THEN N2OS(v, L) ELSE N2OS(v, L + 1)), V("k", x.pad, "sha256", M0, N2OS(v, 1032))>>)
    [] x.k = "small" -> LET y == SmallSig(x.i) IN
        IF ~y.use THEN Scenario(id, <<LdPub("k", y.n, "3")>>)
        ELSE Scenario(id, <<LdPub("k", y.n, "3"), V("k", "pkcs1", "sha256", y.m, N2OS(y.s, y.k)), V("k", "pkcs1", "sha256", y.m, N2OS(NAdd(y.s, "1"), y.k)),
                            V("k", "pkcs1", "sha256", y.m, N2OS(y.s, (NBits(y.s) + 7) \div 8)), V("k", "pkcs1", "sha256", y.m, N2OS(y.s, y.k - 8))>>)
    [] x.k = "prime" -> LET n == ShapePrimes[x.i]  k == PrimeKey(n)  h == Hashes[x.h]
                            v == Em(n, x.pad, h, D(<<x>>, 5), Salt(x, h))  sig == N2OS(RsaRoot(k, v), ModLen(n)) IN
        Scenario(id, <<LdPub("k", n, F4), V("k", x.pad, h, D(<<x>>, 5), sig), V("k", x.pad, h, D(<<x>>, 5), BFlip(sig, 12))>>)
    [] x.k = "cross" -> LET h == Hashes[x.h]  sig == SigOf(K0, x.pad, h, M0, Salt("x", h)) IN
        Scenario(id, <<LdPub("k", K0.n, K0.e), LdPub("o", Keys["c2048"].n, F4), V("o", x.pad, h, M0, sig)>>
            \o Concats([j \in 1..3 |-> <<V("k", "pkcs1", Hashes[j], M0, sig), V("k", "pss", Hashes[j], M0, sig)>>]))
    [] x.k = "msg" -> LET h == Hashes[x.h]  m == D(<<x>>, x.n)  sig == SigOf(K0, x.pad, h, m, Salt("m", h)) IN
        Scenario(id, <<LdPub("k", K0.n, K0.e), V("k", x.pad, h, m, sig), V("k", x.pad, h, BCat(m, "00"), sig)>>)
    [] x.k = "rnd" -> LET k == Keys[Pick(<<Seed, x>>, {"b2048", "c2048", "d2048", "b3072", "b2112"})]  pad == Pick(<<Seed, x, 1>>, Pads)  h == HashN(x.i)  m == D(<<x>>, x.i) IN
        Scenario(id, <<LdPub("k", k.n, k.e)>> \o Concats([j \in 1..6 |-> LET sig == SigOf(k, pad, h, BCat(m, N2OS(NInt(j), 1)), Salt(<<x, j>>, h)) IN
             <<V("k", pad, h, BCat(m, N2OS(NInt(j), 1)), sig), V("k", pad, h, m, sig), V("k", pad, h, m, D(<<x, j>>, ModLen(k.n)))>>]))
    [] x.k = "der" -> \* the container of the public key
        LET n == DInt(K0.n)  e == DInt(F4)  g == RsaPubDer(K0.n, F4)
            ng == DTlv(2, BTail(DIntBody(K0.n), 1))      \* negative
            L(b) == [op |-> "rsa.loadpub", h |-> "k", der |-> b]
            b == CASE x.i = 1 -> BCat(g, "00") [] x.i = 2 -> BHead(g, BLen(g) - 1) [] x.i = 3 -> BTail(g, 1) [] x.i = 4 -> ""
              [] x.i = 5 -> DSeq(<<n, e, e>>) [] x.i = 6 -> DSeq(<<n>>) [] x.i = 7 -> DSeq(<<e, n>>) [] x.i = 8 -> DSeq(<<ng, e>>)
              [] x.i = 9 -> DSeq(<<n, DTlv(2, "81")>>) [] x.i = 10 -> DSeq(<<DTlv(2, BCat("00", DIntBody(K0.n))), e>>)
              [] x.i = 11 -> DSeq(<<n, DTlv(2, "00010001")>>) [] x.i = 12 -> BSet(g, 0, 49) [] x.i = 13 -> RsaSpkiDer(K0.n, F4)
              [] x.i = 14 -> DSeq(<<n, DTlv(2, "")>>) [] x.i = 15 -> DSeq(<<DTlv(2, ""), e>>) [] x.i = 16 -> BCatSeq(<<"3080", n, e, "0000">>)
              [] x.i = 17 -> DSeq(<<n, DTlv(3, "010001")>>) [] x.i = 18 -> DSeq(<<DTlv(4, DIntBody(K0.n)), e>>)
              [] x.i = 19 -> BCatSeq(<<"30830", "0010a", n, e>>) [] x.i = 20 -> BCatSeq(<<"30840", "000010a", n, e>>)
              [] x.i = 21 -> DSeq(<<n, BCatSeq(<<"028103", "010001">>)>>) [] x.i = 22 -> DSeq(<<n, BCatSeq(<<"02820003", "010001">>)>>)
              [] x.i = 23 -> DSeq(<<n, DTlv(2, "ff0001")>>) [] x.i = 24 -> DSeq(<<n, DTlv(2, "0001")>>) [] x.i = 25 -> DSeq(<<n, e, "0500">>)
              [] x.i = 26 -> DSeq(<<n, DTlv(2, "0080000001")>>) [] x.i = 27 -> DSeq(<<n, DTlv(2, "80000001")>>) [] x.i = 28 -> DSeq(<<DTlv(2, "ff"), e>>)
              [] x.i = 29 -> DSeq(<<"0500", n, e>>) [] OTHER -> g
        IN  Scenario(id, <<L(b)>>)
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
