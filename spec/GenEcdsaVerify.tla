---------------------------- MODULE GenEcdsaVerify ----------------------------
(* C09: valid, crafted and invalid signatures.                                  *)
EXTENDS EcdsaCases

LdP(c, h, q) == [op |-> "ecdsa.loadpub", curve |-> c, h |-> h, pt |-> q]
V(h, form, hash, m, sig) == [op |-> "ecdsa.verify", h |-> h, form |-> form, hash |-> hash, m |-> <<m>>, sig |-> sig, al |-> 100]
VV(c, h, hash, m, r, s) == <<V(h, "fixed", hash, m, FixedRS(c, r, s)), V(h, "asn1", hash, m, DerRS(r, s))>>
Big == IF Thorough THEN 8 ELSE 1

\* a fixed genuine signature
D0(c) == RndScalar(c, "d0")
M0 == "68656c6c6f"
S0(c, hash) == EcdsaSignWith(c, D0(c), Hash(hash, M0), RndScalar(c, <<"k0", hash>>))
Load0(c) == LdP(c, "k", PubOf(c, D0(c)))

\* DER writing that goes wrong in one way
LongLen(tag, body, n) == BCatSeq(<<DByte(tag), DByte(128 + n), N2OS(NInt(BLen(body)), n), body>>)
Raw(tag, body) == DTlv(tag, body)
DerMut(r, s, i) ==
    LET rb == DIntBody(r)  sb == DIntBody(s)  R == DInt(r)  S == DInt(s)
        good == BCat(R, S)
    IN CASE i = 1 -> LongLen(48, good, 1) [] i = 2 -> LongLen(48, good, 2) [] i = 3 -> LongLen(48, good, 3) [] i = 4 -> LongLen(48, good, 4)
         [] i = 5 -> Raw(48, BCat(LongLen(2, rb, 1), S)) [] i = 6 -> Raw(48, BCat(R, LongLen(2, sb, 1)))
         [] i = 7 -> Raw(48, BCat(R, LongLen(2, sb, 2)))
         [] i = 8 -> Raw(48, BCat(Raw(2, BCat("00", rb)), S)) [] i = 9 -> Raw(48, BCat(R, Raw(2, BCat("00", sb))))
         [] i = 10 -> Raw(48, BCat(Raw(2, BCat("0000", rb)), S))
         [] i = 11 -> Raw(48, BCat(Raw(2, BCat("ff", rb)), S)) [] i = 12 -> Raw(48, BCat(R, Raw(2, BCat("ff", sb))))
         [] i = 13 -> Raw(48, BCat(good, "0500")) [] i = 14 -> Raw(48, BCat(good, "00")) [] i = 15 -> BCat(Raw(48, good), "00")
         [] i = 16 -> BCat(Raw(48, good), "0500") [] i = 17 -> Raw(48, BCat(S, R)) [] i = 18 -> Raw(48, R) [] i = 19 -> Raw(48, "")
         [] i = 20 -> Raw(49, good) [] i = 21 -> Raw(16, good) [] i = 22 -> Raw(160, good)
         [] i = 23 -> Raw(48, BCat(Raw(3, rb), S)) [] i = 24 -> Raw(48, BCat(R, Raw(4, sb))) [] i = 25 -> Raw(48, BCat(Raw(34, rb), S))
         [] i = 26 -> BCatSeq(<<"3080", good, "0000">>) [] i = 27 -> Raw(48, Raw(48, good)) [] i = 28 -> good
         [] i = 29 -> Raw(48, BCat("0200", S)) [] i = 30 -> Raw(48, BCat(R, "0200")) [] i = 31 -> Raw(48, BCatSeq(<<R, S, S>>))
         [] i = 32 -> Raw(48, BCat(Raw(2, IF BAt(rb, 0) = 0 /\ BLen(rb) > 1 THEN BTail(rb, 1) ELSE BCat("80", rb)), S))
         [] i = 33 -> Raw(48, BCat(R, Raw(2, IF BAt(sb, 0) = 0 /\ BLen(sb) > 1 THEN BTail(sb, 1) ELSE BCat("80", sb))))
         [] i = 34 -> "" [] i = 35 -> "30" [] i = 36 -> "3000" [] i = 37 -> "3081" [] i = 38 -> "3082" [] i = 39 -> "308201"
         [] i = 40 -> BCatSeq(<<"3082ffff", good>>) [] i = 41 -> BCatSeq(<<"3084ffffffff", good>>) [] i = 42 -> BCatSeq(<<"3088ffffffffffffffff", good>>)
         [] i = 43 -> Raw(48, BCat("0281", S)) [] i = 44 -> Raw(48, BCat("027f", S)) [] i = 45 -> Raw(48, BCatSeq(<<"02820100", rb, S>>))
         [] i = 46 -> Raw(48, BCat(R, Raw(2, BCat(sb, "00")))) [] i = 47 -> Raw(48, BCat(R, Raw(2, BHead(sb, BLen(sb) - 1))))
         [] i = 48 -> BCat("00", Raw(48, good)) [] i = 49 -> Raw(48, BCat("00", good)) [] i = 50 -> Raw(48, BCat(Raw(2, BRep(0, 120)), S))
         [] i = 51 -> Raw(48, BCat(Raw(2, BCat("01", rb)), S)) [] i = 52 -> Raw(48, BCat(R, Raw(2, BCat("7f", sb))))
         [] i = 53 -> Raw(48, BCat(Raw(2, BCat("01", BRep(0, 200))), S)) [] i = 54 -> Raw(48, BCat(R, Raw(2, BCat("01", BRep(0, 400)))))
         [] i = 55 -> Raw(48, BCat(R, Raw(2, BCat("00ff", BRep(255, 47)))))
         [] i = 56 -> DerRS(r, s)

Cases ==
   [k : {"valid"}, c : Curves, i : 1..(40 * Big)]
   \cup [k : {"k"}, c : Curves, i : 1..16, n : {0, 1}]
   \cup [k : {"u1"}, c : Curves, i : 1..24] \cup [k : {"u2"}, c : Curves, i : 1..24]
   \cup [k : {"u1p"}, c : Curves, s : 0..127] \cup [k : {"u2p"}, c : Curves, s : 0..127]
   \cup [k : {"dbl"}, c : Curves, i : 1..(12 * Big)] \cup [k : {"inf"}, c : Curves, i : 1..(12 * Big)]
   \cup [k : {"inf2"}, c : Curves, i : 1..6, m : 1..3]
   \cup [k : {"bigx"}, c : Curves, i : 0..(11 * Big)] \cup [k : {"smallx"}, c : Curves, i : 0..11]
   \cup [k : {"range"}, c : Curves, i : 0..9, j : 0..9]
   \cup [k : {"wrap"}, c : Curves, i : 1..8]
   \cup [k : {"malle"}, c : Curves, h : 1..3]
   \cup [k : {"flip"}, c : Curves, b : 0..767] \cup [k : {"derflip"}, c : Curves, b : 0..851]
   \cup [k : {"len"}, c : Curves, n : 0..130] \cup [k : {"derlen"}, c : Curves, n : 0..120]
   \cup [k : {"gap"}, c : Curves, n : 1..64] \cup [k : {"trim"}, c : Curves, n : 1..4]
   \cup [k : {"der"}, c : Curves, i : 1..56, v : 1..4]
   \cup [k : {"msg"}, c : Curves, i : 1..8] \cup [k : {"key"}, c : Curves, i : 1..8]
   \cup [k : {"rare"}, c : Curves, i : 1..8]
   \cup [k : {"cross"}, c : Curves, h : 1..3]
   \cup [k : {"garbage"}, c : Curves, i : 1..(40 * Big)]

Pub(c, h, p) == LdP(c, h, EcEncode(c, p))
Crafted(id, c, x, hash, m) == Scenario(id, <<Pub(c, "k", x.Q)>> \o VV(c, "k", hash, m, x.r, x.s)
      \o VV(c, "k", hash, m, x.r, NSub(N(c), x.s)) \o VV(c, "k", hash, BCat(m, "00"), x.r, x.s))
Pats(c, i) == <<"1", "2", "3", NSub(N(c), "1"), NSub(N(c), "2"), NShr(N(c), 1), NAdd(NShr(N(c), 1), "1"), NPow2(64), NPow2(128),
                NSub(NPow2(128), "1"), NPow2(192), "4", "8", "10", "7f", "80", "81", "ff", NPow2(255), NSub(NPow2(255), "1"),
                NSub(N(c), NPow2(128)), NPow2(32), NSub(N(c), "10"), NSub(N(c), "80")>>[i]
Sc(x) ==
  LET id == ToString(<<"ev", x>>)  c == x.c IN
  CASE x.k = "valid" -> LET d == RndScalar(c, <<x, "d">>)  m == D(<<x>>, x.i)  h == HashN(x.i)  s == EcdsaSignWith(c, d, Hash(h, m), RndScalar(c, <<x, "k">>)) IN
        Scenario(id, <<LdP(c, "k", PubOf(c, d))>> \o VV(c, "k", h, m, s.r, s.s) \o VV(c, "k", HashN(x.i + 1), m, s.r, s.s))
    [] x.k = "rare" -> LET s == EcdsaSign(c, "sha256", "7", Hash("sha256", "aa"), RareX[c][x.i]) IN
        Scenario(id, <<LdP(c, "k", PubOf(c, "7"))>> \o VV(c, "k", "sha256", "aa", s.r, s.s))
    [] x.k = "k" -> LET d == RndScalar(c, <<x, "d">>)  k == IF x.n = 0 THEN NInt(x.i) ELSE NSub(N(c), NInt(x.i))
                        s == EcdsaSignWith(c, d, Hash("sha256", M0), k) IN
        Scenario(id, <<LdP(c, "k", PubOf(c, d))>> \o VV(c, "k", "sha256", M0, s.r, s.s))
    [] x.k = "u1" -> Crafted(id, c, WithU1(c, Ehash(c, "sha256", M0), NMod(Pats(c, x.i), N(c)), RndScalar(c, <<x>>)), "sha256", M0)
    [] x.k = "u2" -> Crafted(id, c, WithU2(c, Ehash(c, "sha256", M0), NMod(Pats(c, x.i), N(c)), RndScalar(c, <<x>>)), "sha256", M0)
    [] x.k = "u1p" -> LET y == WithU1(c, Ehash(c, "sha384", M0), Fix(c, Pattern(c, 7, x.s)), RndScalar(c, <<x>>)) IN
                      Scenario(id, <<Pub(c, "k", y.Q)>> \o VV(c, "k", "sha384", M0, y.r, y.s))
    [] x.k = "u2p" -> LET y == WithU2(c, Ehash(c, "sha384", M0), Fix(c, Pattern(c, 5 + 2 * (x.s % 2), x.s)), RndScalar(c, <<x>>)) IN
                      Scenario(id, <<Pub(c, "k", y.Q)>> \o VV(c, "k", "sha384", M0, y.r, y.s))
    [] x.k = "dbl" -> LET u1 == IF x.i <= 4 THEN NInt(x.i) ELSE RndScalar(c, <<x>>) IN
                      Crafted(id, c, WithU1(c, Ehash(c, "sha256", M0), u1, NMod(NMul("2", u1), N(c))), "sha256", M0)
    [] x.k = "inf" -> \* d = -e/r for an r, any s: u1 G + u2 Q is infinity
        LET r == IF x.i = 1 THEN "1" ELSE IF x.i = 2 THEN NMod(Curve(c).g[1], N(c)) ELSE RndScalar(c, <<x>>)
            d == NSubMod("0", Mn(c, Ehash(c, "sha256", M0), Inv(c, r)), N(c))
        IN  Scenario(id, <<LdP(c, "k", PubOf(c, d))>> \o VV(c, "k", "sha256", M0, r, "1") \o VV(c, "k", "sha256", M0, r, RndScalar(c, <<x, 2>>))
                 \o VV(c, "k", "sha256", M0, r, Ehash(c, "sha256", M0)))
    [] x.k = "inf2" -> \* ... with r what a wrong sum might be: u1 G, 2 u1 G or 3 u1 G
        LET e == Ehash(c, "sha256", M0)
            t == IF x.i <= 3 THEN NInt(x.i) ELSE RndScalar(c, <<x>>)
            r == NMod(EcBase(c, NMod(NMul(NInt(x.m), t), N(c)))[1], N(c))
            d == NSubMod("0", Mn(c, e, Inv(c, r)), N(c))
        IN  Scenario(id, <<LdP(c, "k", PubOf(c, d))>> \o VV(c, "k", "sha256", M0, r, Mn(c, e, Inv(c, t))))
    [] x.k = "bigx" -> LET R == EcLift(c, NextX(c, NAdd(N(c), NInt(1 + 7 * x.i))))  y == WithR(c, Ehash(c, "sha256", M0), Flip(c, R, x.i % 2), RndScalar(c, <<x>>)) IN
        Scenario(id, <<Pub(c, "k", y.Q)>> \o VV(c, "k", "sha256", M0, y.r, y.s) \o VV(c, "k", "sha256", M0, R[1], y.s) \o VV(c, "k", "sha256", M0, NAdd(y.r, "1"), y.s))
    [] x.k = "smallx" -> LET R == EcLift(c, NextX(c, NInt(1 + x.i)))  y == WithR(c, Ehash(c, "sha256", M0), Flip(c, R, x.i % 2), RndScalar(c, <<x>>)) IN
        Scenario(id, <<Pub(c, "k", y.Q)>> \o VV(c, "k", "sha256", M0, y.r, y.s) \o VV(c, "k", "sha256", M0, NAdd(y.r, N(c)), y.s))
    [] x.k = "range" -> LET s0 == S0(c, "sha256")
                            v(i, g) == <<"0", "1", NSub(N(c), "1"), N(c), NAdd(N(c), "1"), NSub(NPow2(8 * L(c)), "1"), P(c), NSub(P(c), "1"), "2", g>>[i + 1] IN
        Scenario(id, <<Load0(c)>> \o VV(c, "k", "sha256", M0, v(x.i, s0.r), v(x.j, s0.s)))
    [] x.k = "wrap" -> LET y == WithU2(c, Ehash(c, "sha256", M0), NInt(x.i), "1") IN    \* small r, s plus n
        Scenario(id, <<Load0(c), V("k", "asn1", "sha256", M0, DerRS(NAdd(S0(c, "sha256").r, N(c)), S0(c, "sha256").s)),
              V("k", "asn1", "sha256", M0, DerRS(S0(c, "sha256").r, NAdd(S0(c, "sha256").s, NMul(NInt(x.i), N(c))))),
              V("k", "asn1", "sha256", M0, DerRS(NAdd(S0(c, "sha256").r, NMul(NInt(x.i), N(c))), S0(c, "sha256").s)),
              V("k", "asn1", "sha256", M0, DerRS(S0(c, "sha256").r, NAdd(S0(c, "sha256").s, NMul(NInt(x.i), NPow2(8 * L(c)))))),
              V("k", "asn1", "sha256", M0, DerRS(NAdd(S0(c, "sha256").r, NMul(NInt(x.i), NPow2(8 * L(c)))), S0(c, "sha256").s))>>)
    [] x.k = "malle" -> LET h == Hashes[x.h]  s == S0(c, h) IN Scenario(id, <<Load0(c)>> \o VV(c, "k", h, M0, s.r, NSub(N(c), s.s))
            \o VV(c, "k", h, M0, NSub(N(c), s.r), s.s) \o VV(c, "k", h, M0, s.s, s.r) \o VV(c, "k", h, M0, s.r, s.s) \o VV(c, "k", h, "", s.r, s.s))
    [] x.k = "flip" -> Scenario(id, <<Load0(c), V("k", "fixed", "sha256", M0, BFlip(FixedRS(c, S0(c, "sha256").r, S0(c, "sha256").s), x.b % (16 * L(c))))>>)
    [] x.k = "derflip" -> LET g == DerRS(S0(c, "sha384").r, S0(c, "sha384").s) IN Scenario(id, <<Load0(c), V("k", "asn1", "sha384", M0, BFlip(g, x.b % (8 * BLen(g))))>>)
    [] x.k = "len" -> LET g == FixedRS(c, S0(c, "sha256").r, S0(c, "sha256").s) IN
        Scenario(id, <<Load0(c), V("k", "fixed", "sha256", M0, BHead(BCat(g, BZero(130)), x.n)), V("k", "fixed", "sha256", M0, BLast(BCat(BZero(130), g), x.n))>>)
    [] x.k = "gap" -> \* zero octets before, between and after the halves
        LET s0 == S0(c, "sha256")  r == N2OS(s0.r, L(c))  s == N2OS(s0.s, L(c))  z == BZero(x.n)  F(b) == V("k", "fixed", "sha256", M0, b) IN
        Scenario(id, <<Load0(c), F(BCatSeq(<<r, z, s>>)), F(BCatSeq(<<z, r, s>>)), F(BCatSeq(<<r, s, z>>)), F(BCatSeq(<<z, r, z, s>>)),
              F(BCatSeq(<<z, r>>)), F(BCatSeq(<<r, z>>)), F(BCat(r, s))>>)
    [] x.k = "trim" -> \* small r or s without their leading zero octets
        LET R == EcLift(c, NextX(c, NInt(x.n)))
            y == WithR(c, Ehash(c, "sha256", M0), R, IF x.n % 2 = 0 THEN NInt(3 + x.n) ELSE RndScalar(c, <<x, 2>>))
            r == N2OS(y.r, L(c))  s == N2OS(y.s, L(c))  F(b) == V("k", "fixed", "sha256", M0, b)
        IN  Scenario(id, <<Pub(c, "k", y.Q), F(BCat(r, s)), F(BCat(BTail(r, 1), s)), F(BCat(BTail(r, L(c) - 1), s)), F(BCat(BTail(r, 1), BTail(s, 1))),
              F(BCat(r, BTail(s, 1))), F(BCat(r, BTail(s, L(c) - 1))), F(BCat(BTail(r, 1), BCat("00", s))), F(BCat(BCat("00", r), BTail(s, 1)))>>)
    [] x.k = "derlen" -> LET g == DerRS(S0(c, "sha256").r, S0(c, "sha256").s) IN
        Scenario(id, <<Load0(c), V("k", "asn1", "sha256", M0, BHead(BCat(g, BZero(130)), x.n)), V("k", "asn1", "sha256", M0, BTail(g, Min(x.n, BLen(g))))>>)
    [] x.k = "der" -> \* four genuine signatures: random, short r, short s, both with the top bit set or clear
        LET R == IF x.v = 2 THEN EcLift(c, NextX(c, NInt(1 + x.i))) ELSE EcBase(c, RndScalar(c, <<x.v>>))
            y == WithR(c, Ehash(c, "sha256", M0), R, IF x.v = 3 THEN NInt(3 + x.i) ELSE RndScalar(c, <<x.v, 2>>))
        IN  Scenario(id, <<Pub(c, "k", y.Q), V("k", "asn1", "sha256", M0, DerMut(y.r, y.s, x.i)), V("k", "asn1", "sha256", M0, DerRS(y.r, y.s))>>)
    [] x.k = "msg" -> Scenario(id, <<Load0(c)>> \o [j \in 1..40 |-> V("k", "fixed", "sha512", BFlip(M0, j - 1), FixedRS(c, S0(c, "sha512").r, S0(c, "sha512").s))])
    [] x.k = "key" -> LET s == S0(c, "sha256") IN Scenario(id, <<LdP(c, "a", PubOf(c, RndScalar(c, <<x>>))), Pub(c, "b", EcNeg(c, EcBase(c, D0(c)))), Load0(c)>>
            \o VV(c, "a", "sha256", M0, s.r, s.s) \o VV(c, "b", "sha256", M0, s.r, s.s) \o VV(c, "k", "sha256", M0, s.r, s.s))
    [] x.k = "cross" -> \* forms confused with one another, hashes confused
        LET h == Hashes[x.h]  s == S0(c, h) IN Scenario(id, <<Load0(c), V("k", "asn1", h, M0, FixedRS(c, s.r, s.s)), V("k", "fixed", h, M0, DerRS(s.r, s.s))>>
              \o [j \in 1..3 |-> V("k", "fixed", Hashes[j], M0, FixedRS(c, s.r, s.s))])
    [] x.k = "garbage" -> Scenario(id, <<Load0(c), V("k", "asn1", "sha256", M0, D(<<x>>, x.i * 3)), V("k", "asn1", "sha256", M0, BCat("30", D(<<x, 1>>, x.i * 3))),
              V("k", "fixed", "sha256", M0, D(<<x, 2>>, 2 * L(c))), V("k", "asn1", "sha256", M0, DerRS(RndScalar(c, <<x, 3>>), RndScalar(c, <<x, 4>>)))>>)
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
