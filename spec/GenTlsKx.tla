------------------------------- MODULE GenTlsKx -------------------------------
(* C22: TLS key shares of every group: both sides, component of the hybrid,      *)
(* shares of the wrong length, changed in either part, of small order, off the   *)
(* curve, not reduced; the random source failing or yielding unusable values.    *)
EXTENDS TlsCases, EcCases

Groups == {"X25519", "secp256r1", "secp384r1", "X25519MLKEM768"}
EcGroups == {"secp256r1", "secp384r1"}
Hy == "X25519MLKEM768"
C(g) == A!GroupCurve(g)
PLen(g) == CASE g = "X25519" -> 32 [] g = Hy -> 1216 [] OTHER -> 1 + 2 * L(C(g))
SLen(g) == IF g = Hy THEN 1120 ELSE PLen(g)
RngS(b, then, at) == [op |-> "rng.set", bytes |-> b, then |-> then, fill |-> 0, failat |-> at]
Start(h, g) == [op |-> "tls.kxstart", h |-> h, group |-> g, to |-> h \o "pub"]
Compl(h, from) == [op |-> "tls.kxcomplete", h |-> h, from |-> from, opt |-> TRUE]
ComplB(h, peer) == [op |-> "tls.kxcomplete", h |-> h, peer |-> peer, opt |-> TRUE]
Serve(g, from) == [op |-> "tls.kxserve", group |-> g, from |-> from, to |-> "srv", opt |-> TRUE]
ServeB(g, peer) == [op |-> "tls.kxserve", group |-> g, peer |-> peer, to |-> "srv"]
\* the client's share, the server's answer; then what a changed answer or share makes of it
Run(g) == <<Start("a", g), Serve(g, "apub")>>
LowOrder == << BZero(32), BCat("01", BZero(31)),
   "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
   "5f9c95bcca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f157",
   "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
   "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
   "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f" >>
Low(i) == LET u == LowOrder[1 + (i % 7)] IN IF i >= 7 THEN BSet(u, 31, 128 + (BAt(u, 31) % 128)) ELSE u
NonCan(i) == N2LE(NAdd(NSub(NPow2(255), "19"), NInt(2 + i)), 32)      \* not reduced, of large order
SetCoef(b, i, v) ==
    LET o == 3 * (i \div 2) IN
    IF i % 2 = 0 THEN BSet(BSet(b, o, v % 256), o + 1, (BAt(b, o + 1) \div 16) * 16 + (v \div 256))
    ELSE BSet(BSet(b, o + 1, (BAt(b, o + 1) % 16) + 16 * (v % 16)), o + 2, v \div 16)
Seed0 == D("kxseed", 64)
Ek0 == A!MlKeyGen(Seed0).ek
X0 == D("kxx", 32)
XPub0 == A!X25519Base(X0)
Q0(c) == EcPub(c, "7")
\* points that are none, or not in the form the protocol uses
NPts == 24
BadPt(c, i) ==
    LET q == Q0(c)  l == L(c)  x == BSub(q, 1, l)  y == BSub(q, 1 + l, l)  o == IF c = "p256" THEN "p384" ELSE "p256" IN
    CASE i = 0 -> "00" [] i = 1 -> "" [] i = 2 -> BCat("02", x) [] i = 3 -> BCat("03", x) [] i = 4 -> BSet(q, 0, 6) [] i = 5 -> BSet(q, 0, 7)
      [] i = 6 -> BSet(q, 0, 5) [] i = 7 -> BSet(q, 0, 0) [] i = 8 -> BCat(BHead(q, 1), BZero(2 * l)) [] i = 9 -> BFlip(q, 8 * (2 * l) + 0)
      [] i = 10 -> BFlip(q, 8 * l) [] i = 11 -> BCat(q, "00") [] i = 12 -> BHead(q, 2 * l) [] i = 13 -> Q0(o)
      [] i = 14 -> BCatSeq(<<"04", y, x>>) [] i = 15 -> BCatSeq(<<"04", N2OS(P(c), l), y>>) [] i = 16 -> BCatSeq(<<"04", x, N2OS(P(c), l)>>)
      [] i = 17 -> BCatSeq(<<"04", x, N2OS(NSub(P(c), OS2N(y)), l)>>)     \* a point, in fact
      [] i = 18 -> BCatSeq(<<"04", BRep(255, 2 * l)>>) [] i = 19 -> BTail(q, 1) [] i = 20 -> BCat("00", q)
      [] i = 21 -> BCatSeq(<<"04", N2OS("0", l), N2OS("1", l)>>) [] i = 22 -> BCatSeq(<<"04", N2OS("0", l), N2OS(NMod(NSub(P(c), "1"), P(c)), l)>>)
      [] OTHER -> BCatSeq(<<"04", N2OS("1", l), N2OS("1", l)>>)
\* not reduced: the coordinates of a point plus p (only points with small x have such an encoding)
Over(c, i) == LET s == SmallY(c)[1 + (i % 3)]  l == L(c) IN BCatSeq(<<"04", N2OS(s[1], l), N2OS(NAdd(s[2], P(c)), l)>>)
SmallPt(c, i) == LET s == SmallY(c)[1 + (i % 3)]  l == L(c) IN BCatSeq(<<"04", N2OS(s[1], l), N2OS(s[2], l)>>)
BadCand(c, i) == N2OS(<<"0", N(c), NAdd(N(c), "1"), NSub(NPow2(8 * L(c)), "1"), P(c)>>[1 + (i % 5)], L(c))
Lim(n) == IF Thorough THEN 10 * n ELSE n

Cases ==
   [k : {"agree"}, g : Groups, w : 1..Lim(24)]
   \cup [k : {"ver"}, g : Groups]
   \cup [k : {"plen"}, g : Groups, d : -70..70]
   \cup [k : {"slen"}, g : Groups, d : -70..70]
   \cup [k : {"len"}, g : Groups, l : {0, 1, 31, 32, 33, 64, 65, 66, 96, 97, 98, 133, 1087, 1088, 1089, 1119, 1120, 1121, 1152, 1184, 1185, 1215, 1216, 1217, 1248, 1568, 2400}]
   \cup [k : {"low"}, i : 0..13, g : {"X25519", Hy}]
   \cup [k : {"noncan"}, i : 0..16, g : {"X25519", Hy}]
   \cup [k : {"badpt"}, g : EcGroups, i : 0..(NPts - 1)]
   \cup [k : {"over"}, g : EcGroups, i : 0..2]
   \cup [k : {"hflip"}, b : {8 * (1120 \div 60) * j + (j % 8) : j \in 0..59} \cup (8695..8705) \cup (8950..8959)]
   \cup [k : {"pflip"}, g : EcGroups \cup {"X25519"}, b : 0..(IF Thorough THEN 255 ELSE 31)]
   \cup [k : {"eflip"}, b : 0..(IF Thorough THEN 320 ELSE 64)]
   \cup [k : {"coef"}, i : (IF Thorough THEN 0..767 ELSE {j \in 0..767 : j % 12 = Seed % 12} \cup {0, 1, 766, 767}), v : {3328, 3329, 4095}]
   \cup [k : {"swap"}, d : 0..5]
   \cup [k : {"comp"}, w : 1..Lim(6)]
   \cup [k : {"cross"}, g : Groups, o : Groups]
   \cup [k : {"fail"}, g : Groups, at : 1..4]
   \cup [k : {"dry"}, g : Groups, n : {0, 1, 31, 32, 47, 48, 63, 64, 65, 95}]
   \cup [k : {"cand"}, g : EcGroups, n : 0..6]
   \cup [k : {"many"}, w : 1..Lim(4)]
Sc(x) ==
  LET id == ToString(<<"kx", x>>)
      g == x.g
  IN
  CASE x.k = "agree" -> Scenario(id, Run(g) \o <<Compl("a", "srv")>>)
    [] x.k = "ver" -> Scenario(id, <<[op |-> "tls.kxversions", group |-> g], [op |-> "tls.provider"]>>)
    [] x.k = "plen" -> \* the client's share, shortened or lengthened
         LET m == IF x.d < 0 THEN [cut |-> -x.d] ELSE IF x.d = 0 THEN [cuthead |-> 1] ELSE [add |-> D(<<x>>, x.d)]
             m2 == IF x.d < 0 THEN [cuthead |-> -x.d] ELSE [cuthead |-> 1 + x.d, add |-> BZero(x.d)] IN
         Scenario(id, <<Start("a", g), Serve(g, "apub") @@ m, Serve(g, "apub") @@ m2>>)
    [] x.k = "slen" ->
         LET m == IF x.d < 0 THEN [cut |-> -x.d] ELSE IF x.d = 0 THEN [cuthead |-> 1] ELSE [add |-> D(<<x>>, x.d)]
             m2 == IF x.d < 0 THEN [cuthead |-> -x.d] ELSE [cuthead |-> 1 + x.d, add |-> BZero(x.d)] IN
         Scenario(id, Run(g) \o <<Compl("a", "srv") @@ m>> \o Run(g) \o <<Compl("a", "srv") @@ m2>>)
    [] x.k = "len" -> Scenario(id, <<ServeB(g, D(<<x>>, x.l)), Start("a", g), ComplB("a", D(<<x, "b">>, x.l)), ServeB(g, BZero(x.l)), Start("b", g), ComplB("b", BZero(x.l))>>)
    [] x.k = "low" ->
         IF g = "X25519" THEN Scenario(id, <<ServeB(g, Low(x.i)), Start("a", g), ComplB("a", Low(x.i))>>)
         ELSE Scenario(id, <<ServeB(g, BCat(Ek0, Low(x.i)))>> \o Run(g) \o <<Compl("a", "srv") @@ [puttail |-> Low(x.i)]>> \o Run(g) \o <<ComplB("a", Low(x.i)) @@ [comp |-> TRUE]>>)
    [] x.k = "noncan" ->
         IF g = "X25519" THEN Scenario(id, <<ServeB(g, NonCan(x.i)), Start("a", g), ComplB("a", NonCan(x.i))>>)
         ELSE Scenario(id, <<ServeB(g, BCat(Ek0, NonCan(x.i)))>> \o Run(g) \o <<Compl("a", "srv") @@ [puttail |-> NonCan(x.i)]>>)
    [] x.k = "badpt" -> Scenario(id, <<ServeB(g, BadPt(C(g), x.i)), Start("a", g), ComplB("a", BadPt(C(g), x.i))>>)
    [] x.k = "over" -> Scenario(id, <<ServeB(g, Over(C(g), x.i)), Start("a", g), ComplB("a", Over(C(g), x.i)), ServeB(g, SmallPt(C(g), x.i)), Start("b", g), ComplB("b", SmallPt(C(g), x.i))>>)
    [] x.k = "hflip" -> Scenario(id, Run(Hy) \o <<Compl("a", "srv") @@ [flip |-> x.b]>>)
    [] x.k = "pflip" -> LET b == (x.b * 8 * PLen(g)) \div (IF Thorough THEN 256 ELSE 32) IN
         Scenario(id, <<Start("a", g), Serve(g, "apub") @@ [flip |-> b], Serve(g, "apub"), Compl("a", "srv") @@ [flip |-> 8 * PLen(g) - 1 - b]>>)
    [] x.k = "eflip" -> LET b == (x.b * 9727) \div (IF Thorough THEN 320 ELSE 64) IN
         Scenario(id, <<Start("a", Hy), Serve(Hy, "apub") @@ [flip |-> b], Compl("a", "srv")>>)
    [] x.k = "coef" -> Scenario(id, <<ServeB(Hy, BCat(SetCoef(Ek0, x.i, x.v), XPub0))>>)
    [] x.k = "swap" -> \* the parts in the other order, or one from another exchange
         CASE x.d = 0 -> Scenario(id, <<ServeB(Hy, BCat(XPub0, Ek0))>>)
           [] x.d = 1 -> LET m == A!MlEncaps(Ek0, D(<<x>>, 32)) IN
                Scenario(id, <<RngS(BCatSeq(<<X0, Seed0>>), "prng", 0), Start("a", Hy), ComplB("a", BCat(XPub0, m.ct))>>)
           [] x.d = 2 -> Scenario(id, Run(Hy) \o <<Start("b", Hy), Compl("b", "srv"), Compl("a", "srv")>>)
           [] x.d = 3 -> Scenario(id, Run(Hy) \o <<Compl("a", "srv") @@ [puttail |-> XPub0]>>)
           [] x.d = 4 -> Scenario(id, Run(Hy) \o <<Compl("a", "srv") @@ [puthead |-> A!MlEncaps(Ek0, D(<<x>>, 32)).ct]>>)
           [] OTHER -> Scenario(id, <<Start("a", Hy), Serve(Hy, "apub") @@ [puttail |-> XPub0], Compl("a", "srv")>>)
    [] x.k = "comp" -> \* the server wants X25519 alone
         Scenario(id, <<Start("a", Hy), Serve("X25519", "apub") @@ [cuthead |-> 1184], Compl("a", "srv") @@ [comp |-> TRUE],
                        Start("b", Hy), Serve("X25519", "bpub"), Serve("X25519", "bpub") @@ [cut |-> 1184], Compl("b", "srv") @@ [comp |-> TRUE],
                        Start("c", Hy), Serve(Hy, "cpub"), Compl("c", "srv") @@ [comp |-> TRUE],
                        Start("d", Hy), Serve(Hy, "dpub"), Compl("d", "srv") @@ [comp |-> TRUE, cuthead |-> 1088]>>)
    [] x.k = "cross" -> Scenario(id, <<Start("a", g), Serve(x.o, "apub"), Start("b", x.o), Serve(x.o, "bpub"), Compl("a", "srv")>>)
    [] x.k = "fail" -> Scenario(id, <<Start("z", g), RngS("", "prng", x.at), Start("a", g), Serve(g, "zpub"), Compl("a", "srv"), Compl("z", "srv"),
                                      RngS("", "prng", 0), Start("b", g), RngS("", "prng", x.at), Serve(g, "bpub"), RngS("", "prng", 0), Serve(g, "bpub"), Compl("b", "srv")>>)
    [] x.k = "dry" -> Scenario(id, <<Start("z", g), RngS(BRep(65, x.n), "fail", 0), Start("a", g), RngS(BRep(66, x.n), "fail", 0), Serve(g, "zpub"), Compl("z", "srv"), Compl("a", "srv"),
                                     RngS("", "prng", 0)>> \o Run(g) \o <<Compl("a", "srv")>>)
    [] x.k = "cand" -> LET c == C(g)  b == BCatSeq([j \in 1..x.n |-> BadCand(c, j)] \o <<N2OS("9", L(c))>>) IN
         Scenario(id, <<RngS(b, "fail", 0), Start("a", g), RngS(b, "fail", 0), Serve(g, "apub"), Compl("a", "srv")>>)
    [] x.k = "many" -> \* several exchanges at once, their shares crossed
         Scenario(id, <<Start("a", Hy), Start("b", "X25519"), Start("c", "secp256r1"), Start("d", "secp384r1"), Start("e", Hy)>>
            \o <<Serve(Hy, "epub"), Compl("a", "srv"), Serve("X25519", "bpub"), Compl("b", "srv"), Serve("secp384r1", "dpub"), Compl("d", "srv"), Serve("secp256r1", "cpub"), Compl("c", "srv"),
                 Serve(Hy, "apub"), Compl("e", "srv")>>)
Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
