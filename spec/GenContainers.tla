----------------------------- MODULE GenContainers -----------------------------
(* C15: key containers.  Every container is a tree of DER elements; each element *)
(* is mutated in every way that strict DER or the key's structure forbids, and   *)
(* every container is cut, extended, bit-flipped, and offered to every reader.   *)
EXTENDS DerTrees
Readers == {"sec1_256", "sec1_384", "p8_256", "p8_384", "p8_ed", "spki_ed", "rsa1", "p8_rsa", "rsapub", "raw_ed", "rawpub_ed"}
Reader(nm) == CASE nm = "sec1_bare" -> "sec1_256" [] nm = "p8_256full" -> "p8_256" [] nm = "p8_384v2" -> "p8_384" [] nm \in {"p8_ed1", "p8_ed2"} -> "p8_ed"
                [] nm = "p8_rsa2" -> "p8_rsa" [] nm \in {"spki_256", "spki_rsa"} -> "spki_ed" [] OTHER -> nm
Rd(r, der) ==
  CASE r = "sec1_256" -> [op |-> "ecdsa.load", curve |-> "p256", h |-> "k", fmt |-> "sec1", der |-> der]
    [] r = "sec1_384" -> [op |-> "ecdsa.load", curve |-> "p384", h |-> "k", fmt |-> "sec1", der |-> der]
    [] r = "p8_256" -> [op |-> "ecdsa.load", curve |-> "p256", h |-> "k", fmt |-> "pkcs8", der |-> der]
    [] r = "p8_384" -> [op |-> "ecdsa.load", curve |-> "p384", h |-> "k", fmt |-> "pkcs8", der |-> der]
    [] r = "p8_ed" -> [op |-> "ed25519.load", h |-> "k", fmt |-> "pkcs8", der |-> der]
    [] r = "raw_ed" -> [op |-> "ed25519.load", h |-> "k", fmt |-> "raw", der |-> der]
    [] r = "spki_ed" -> [op |-> "ed25519.loadpub", h |-> "k", fmt |-> "spki", der |-> der]
    [] r = "rawpub_ed" -> [op |-> "ed25519.loadpub", h |-> "k", fmt |-> "raw", der |-> der]
    [] r = "rsa1" -> [op |-> "rsa.load", h |-> "k", fmt |-> "pkcs1", der |-> der]
    [] r = "p8_rsa" -> [op |-> "rsa.load", h |-> "k", fmt |-> "pkcs8", der |-> der]
    [] r = "rsapub" -> [op |-> "rsa.loadpub", h |-> "k", der |-> der]
Exp(r, n) ==
  LET ec(f) == [op |-> "ecdsa.export", h |-> "k", fmt |-> f, n |-> n, opt |-> TRUE]
      rs(f) == [op |-> "rsa.export", h |-> "k", fmt |-> f, n |-> n, opt |-> TRUE]
      ed == [op |-> "ed25519.export", h |-> "k", n |-> n, opt |-> TRUE]
  IN  CASE r \in {"sec1_256", "sec1_384", "p8_256", "p8_384"} -> <<ec("sec1"), ec("pkcs8"), ec("spki")>>
        [] r \in {"rsa1", "p8_rsa"} -> <<rs("pkcs1"), rs("pkcs8")>>
        [] r = "rsapub" -> <<rs("pkcs1"), rs("spki")>>
        [] OTHER -> <<ed>>
Try(id, r, der) == OpenScenario(id, <<Rd(r, der)>> \o Exp(r, 4000))

\* ---- structure variants beyond single-element mutations
Other(c) == IF c = "p256" THEN "p384" ELSE "p256"
X(c) == BSub(Qc(c), 1, Curve(c).len)
PubVar(c, i) ==
  LET q == Qc(c)  l == Curve(c).len  par == BAt(q, 2 * l) % 2 IN
  CASE i = 1 -> q [] i = 2 -> EcPub(c, "7") [] i = 3 -> BCat(DByte(2 + par), X(c)) [] i = 4 -> BCat(DByte(3 - par), X(c)) [] i = 5 -> BCat(DByte(6 + par), BTail(q, 1))
    [] i = 6 -> "00" [] i = 7 -> BCatSeq(<<"04", X(c), N2OS(NSub(Curve(c).p, OS2N(BTail(q, l + 1))), l)>>) [] i = 8 -> BCat(q, "00") [] i = 9 -> BHead(q, 2 * l) [] i = 10 -> BTail(q, 1)
    [] i = 11 -> Qc(Other(c)) [] i = 12 -> BFlip(q, 8 * 2 * l) [] i = 13 -> BCatSeq(<<"04", BZero(2 * l)>>) [] i = 14 -> BCat("04", X(c))
ScalarVar(c, i) ==
  LET n == Curve(c).n  l == Curve(c).len IN
  CASE i = 1 -> BZero(l) [] i = 2 -> N2OS("1", l) [] i = 3 -> N2OS(n, l) [] i = 4 -> N2OS(NSub(n, "1"), l) [] i = 5 -> N2OS(NAdd(n, "1"), l) [] i = 6 -> BRep(255, l)
    [] i = 7 -> BCat("00", N2OS(Sk(c), l)) [] i = 8 -> BCat("01", N2OS(Sk(c), l)) [] i = 9 -> N2OS("5", l - 1) [] i = 10 -> N2OS("5", 1) [] i = 11 -> "" [] i = 12 -> BZero(l + 8)
    [] i = 13 -> BCat(BZero(200), N2OS(Sk(c), l)) [] i = 14 -> N2OS("100", l) [] i = 15 -> BCat(N2OS(Sk(c), l), "00") [] i = 16 -> BTail(N2OS(n, l), 1)
    [] i = 17 -> BCatSeq(<<BZero(1), BHead(N2OS(Sk(c), l), l - 1)>>)
Vers == <<"0", "1", "2", "3", "7f", "80", "ff", "100", "101", "10000", "10001", "ffffffff", "100000000", "100000001", "10000000000000000", "10000000000000001">>
AlgVar(i) ==
  CASE i = 1 -> AlgT(OidEc, << >>) [] i = 2 -> AlgT(OidEc, <<NullT>>) [] i = 3 -> AlgT(OidEc, <<O(OidCurve("p384"))>>) [] i = 4 -> AlgT(OidEc, <<O(OidCurve("p256"))>>)
    [] i = 5 -> AlgT(OidEc, <<O("2b8104000a")>>) [] i = 6 -> AlgT(OidEc, <<O(OidCurve("p256")), NullT>>) [] i = 7 -> AlgT(OidEc, <<Nd(48, "", <<I("1")>>)>>)
    [] i = 8 -> AlgT(OidCurve("p256"), <<O(OidEc)>>) [] i = 9 -> RsaAlgT [] i = 10 -> AlgT(OidRsa, << >>) [] i = 11 -> AlgT(OidRsa, <<Nd(48, "", << >>)>>)
    [] i = 12 -> AlgT("2a864886f70d01010a", <<NullT>>) [] i = 13 -> AlgT("2a864886f70d01010b", <<NullT>>) [] i = 14 -> AlgT(OidRsa, <<NullT, NullT>>) [] i = 15 -> EdAlgT
    [] i = 16 -> AlgT(OidEd25519, <<NullT>>) [] i = 17 -> AlgT("2b656e", << >>) [] i = 18 -> AlgT("2b6571", << >>) [] i = 19 -> AlgT(OidEd25519, <<O(OidEd25519)>>) [] i = 20 -> AlgT(OidEd25519, <<Lf(4, "")>>)
    [] i = 21 -> AlgT(OidRsa, <<Lf(5, "00")>>) [] i = 22 -> Nd(48, "", << >>) [] i = 23 -> Nd(48, "", <<NullT>>) [] i = 24 -> AlgT("", << >>)
    [] i = 25 -> AlgT("2a8648ce3d020100", <<O(OidCurve("p256"))>>) [] i = 26 -> AlgT(OidEc, <<O("2a8648ce3d03010700")>>) [] i = 27 -> AlgT(OidEc, <<O("2a8648ce3d0301")>>)
    [] i = 28 -> AlgT(OidEd25519, <<Lf(2, "00")>>) [] i = 29 -> AlgT(OidEd25519, <<Lf(3, "00")>>) [] i = 30 -> AlgT("2b6570aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", << >>)
    [] i = 31 -> AlgT("2b6570" , <<Lf(12, "41")>>) [] i = 32 -> AlgT(OidRsa, <<O(OidRsa)>>) [] i = 33 -> AlgT(OidEd25519, <<Lf(30, "")>>)
InnerOf(kind) == CASE kind = "p8_256" -> Sec1T("p256", Sk("p256"), FALSE, Qc("p256")) [] kind = "p8_384" -> Sec1T("p384", Sk("p384"), FALSE, Qc("p384"))
                   [] kind = "p8_ed" -> Lf(4, EdSeed) [] kind = "p8_rsa" -> RsaT(K0)
AlgOf(kind) == CASE kind = "p8_256" -> EcAlgT("p256") [] kind = "p8_384" -> EcAlgT("p384") [] kind = "p8_ed" -> EdAlgT [] kind = "p8_rsa" -> RsaAlgT
PubOf(kind) == CASE kind = "p8_256" -> Qc("p256") [] kind = "p8_384" -> Qc("p384") [] kind = "p8_ed" -> EdPublic(EdSeed) [] kind = "p8_rsa" -> RsaPubDer(K0.n, K0.e)
P8Kinds == {"p8_256", "p8_384", "p8_ed", "p8_rsa"}
Attrs(i) == CASE i = 1 -> << >> [] i = 2 -> <<Lf(160, "")>> [] i = 3 -> <<Nd(160, "", <<Nd(48, "", <<O("2a03"), Nd(49, "", << >>)>>)>>)>>
BadPub(kind, i) ==
  LET b == PubOf(kind) IN
  CASE i = 1 -> BFlip(b, 8 * (BLen(b) - 1)) [] i = 2 -> BFlip(b, 8) [] i = 3 -> BHead(b, BLen(b) - 1) [] i = 4 -> BCat(b, "00") [] i = 5 -> "00" [] i = 6 -> BTail(b, 1)
    [] i = 7 -> IF kind = "p8_rsa" THEN RsaPubDer(Keys["c2048"].n, K0.e) ELSE IF kind = "p8_ed" THEN EdPublic(BZero(32)) ELSE EcPub(IF kind = "p8_256" THEN "p256" ELSE "p384", "7")
    [] i = 8 -> IF kind = "p8_rsa" THEN RsaPubDer(K0.n, "3") ELSE PubOf("p8_rsa")
    [] i = 9 -> BZero(BLen(b))
    [] i = 10 -> BFlip(b, 8 * (BLen(b) \div 2))
IntVar(v, i) == CASE i = 1 -> BCat("00", DIntBody(v)) [] i = 2 -> BCat("0000", DIntBody(v)) [] i = 3 -> IF BAt(DIntBody(v), 0) = 0 THEN BTail(DIntBody(v), 1) ELSE BCat("ff", DIntBody(v)) [] i = 4 -> "" [] i = 5 -> "00"
                  [] i = 6 -> BCat(BZero(600), DIntBody(v)) [] i = 7 -> BCat(DIntBody(v), BZero(900)) [] i = 8 -> "80" [] i = 9 -> "ff"
RsaParts == <<"0", K0.n, K0.e, K0.d, K0.p, K0.q, K0.dp, K0.dq, K0.iqmp>>
RVers == <<"0", "1", "2", "3", "80", "100", "10000", "100000000", "10000000000000000">>

Small == {"sec1_256", "sec1_bare", "p8_256", "p8_256full", "p8_ed1", "p8_ed2", "spki_ed"}
Cases ==
   UNION {[k : {"mut"}, t : {nm}, p : Paths(Trees[nm]), m : 1..NMut] : nm \in DOMAIN Trees}
   \cup [k : {"cross"}, t : DOMAIN Trees, r : Readers]
   \cup UNION {[k : {"cut"}, t : {nm}, n : {i \in 0..BLen(Enc(Trees[nm])) : i < 200 \/ i % (IF Thorough THEN 1 ELSE 37) = 0 \/ i > BLen(Enc(Trees[nm])) - 6}] : nm \in DOMAIN Trees}
   \cup [k : {"ext"}, t : DOMAIN Trees, x : {"00", "30", "05", "0000", "0500", "ff", "3000", "0201", "020100", "a000", "8100"}]
   \cup [k : {"pre"}, t : DOMAIN Trees, x : {"00", "0500", "30"}]
   \cup [k : {"twice"}, t : DOMAIN Trees]
   \cup UNION {[k : {"flip"}, t : {nm}, i : 0..(BLen(Enc(Trees[nm])) - 1), b : IF Thorough THEN 0..7 ELSE {8}] : nm \in Small}
   \cup UNION {[k : {"flip"}, t : {nm}, i : {j \in 0..(BLen(Enc(Trees[nm])) - 1) : Thorough \/ j < 40 \/ j % 97 = 3}, b : {8}] : nm \in DOMAIN Trees \ Small}
   \cup [k : {"buf"}, r : {"p8_256"}, n : 0..140] \cup [k : {"buf"}, r : {"p8_384"}, n : 0..190] \cup [k : {"buf"}, r : {"p8_ed", "spki_ed"}, n : 0..90]
   \cup [k : {"buf"}, r : {"rsa1"}, n : {0, 1, 2, 3, 4, 5, 100, 260, 270, 271, 600} \cup (1180..1225)] \cup [k : {"buf"}, r : {"rsapub"}, n : (0..8) \cup (255..300)]
   \cup [k : {"pubvar"}, c : {"p256", "p384"}, i : 1..14, w : 1..4]
   \cup [k : {"scalar"}, c : {"p256", "p384"}, i : 1..17, w : 1..4]
   \cup [k : {"ver"}, r : P8Kinds, v : 1..Len(Vers), pub : BOOLEAN]
   \cup [k : {"sver"}, c : {"p256", "p384"}, v : 1..Len(Vers)]
   \cup [k : {"alg"}, r : P8Kinds \cup {"spki_ed"}, i : 1..33]
   \cup [k : {"attr"}, r : P8Kinds, v : 1..3, pub : BOOLEAN, a : 1..3]
   \cup [k : {"badpub"}, r : P8Kinds, i : 1..10]
   \cup [k : {"unused"}, r : {"p8_256", "p8_384", "p8_ed", "p8_rsa", "spki_ed", "sec1_256"}, v : {1, 2, 7, 8, 255}]
   \cup [k : {"int"}, c : 1..9, i : 1..9] \cup [k : {"pint"}, c : 1..2, i : 1..9]
   \cup [k : {"rver"}, v : 1..Len(RVers), p8 : BOOLEAN]
   \cup [k : {"rt"}, c : {"p256", "p384"}, i : 1..(IF Thorough THEN 400 ELSE 24)]
   \cup [k : {"rte"}, i : 1..(IF Thorough THEN 400 ELSE 24)]
   \cup [k : {"rtr"}, nm : DOMAIN RsaPrimes \ Refused, p8 : BOOLEAN] \cup [k : {"rtre"}, i : 1..8, p8 : BOOLEAN]
   \cup [k : {"rtd"}, c : {"p256", "p384"}, i : 1..12]

Wrap(c, w, s1) == \* one SEC1 tree in the containers that can carry it
  CASE w \in {1, 2} -> Enc(s1) [] w = 3 -> Enc(P8T("0", EcAlgT(c), s1, "")) [] w = 4 -> Enc(P8T("1", EcAlgT(c), s1, Qc(c)))
EcR(c, w) == (IF w <= 2 THEN "sec1_" ELSE "p8_") \o (IF c = "p256" THEN "256" ELSE "384")
RtScalar(c, i) == LET n == Curve(c).n IN
  IF i <= 12 THEN <<"1", "2", "ff", "100", NPow2(64), NPow2(128), NSub(n, "1"), NSub(n, "2"), NPow2(Curve(c).len * 8 - 9), NPow2(Curve(c).len * 8 - 16), NSub(NPow2(128), "1"), "7f">>[i]
  ELSE NAdd("1", NMod(OS2N(D(<<"rt", c, i>>, 60)), NSub(n, "1")))

Sc(x) ==
  LET id == ToString(<<"ct", x>>) IN
  CASE x.k = "mut" -> Try(id, Reader(x.t), EncM(Trees[x.t], x.p, x.m))
    [] x.k = "cross" -> Try(id, x.r, Enc(Trees[x.t]))
    [] x.k = "cut" -> Try(id, Reader(x.t), BHead(Enc(Trees[x.t]), x.n))
    [] x.k = "ext" -> Try(id, Reader(x.t), BCat(Enc(Trees[x.t]), x.x))
    [] x.k = "pre" -> Try(id, Reader(x.t), BCat(x.x, Enc(Trees[x.t])))
    [] x.k = "twice" -> Try(id, Reader(x.t), BCat(Enc(Trees[x.t]), Enc(Trees[x.t])))
    [] x.k = "flip" -> Try(id, Reader(x.t), BFlip(Enc(Trees[x.t]), 8 * x.i + (IF x.b = 8 THEN RndN(<<Seed, x>>, 8) ELSE x.b)))
    [] x.k = "buf" -> LET t == CASE x.r = "p8_ed" -> "p8_ed2" [] OTHER -> x.r IN OpenScenario(id, <<Rd(x.r, Enc(Trees[t]))>> \o Exp(x.r, x.n))
    [] x.k = "pubvar" -> Try(id, EcR(x.c, x.w), Wrap(x.c, x.w, Sec1T(x.c, Sk(x.c), x.w = 2, PubVar(x.c, x.i))))
    [] x.k = "scalar" -> Try(id, EcR(x.c, x.w), Wrap(x.c, x.w, LET b == ScalarVar(x.c, x.i) IN
            Nd(48, "", <<I("1"), Lf(4, b)>> \o (IF x.w \in {2, 3} /\ x.i \in {2, 4, 7, 9, 10, 13, 14} THEN <<Nd(161, "", <<Lf(3, BCat("00", EcPub(x.c, OS2N(b))))>>)>> ELSE << >>))))
    [] x.k = "ver" -> Try(id, x.r, Enc(P8T(Vers[x.v], AlgOf(x.r), InnerOf(x.r), IF x.pub THEN PubOf(x.r) ELSE "")))
    [] x.k = "sver" -> Try(id, EcR(x.c, 1), LET t == Sec1T(x.c, Sk(x.c), TRUE, Qc(x.c)) IN Enc([t EXCEPT !.kids[1] = I(Vers[x.v])]))
    [] x.k = "alg" -> Try(id, x.r, IF x.r = "spki_ed" THEN Enc(Nd(48, "", <<AlgVar(x.i), Lf(3, BCat("00", EdPublic(EdSeed)))>>)) ELSE Enc(P8T("0", AlgVar(x.i), InnerOf(x.r), "")))
    [] x.k = "attr" -> LET t == P8T(Vers[x.v], AlgOf(x.r), InnerOf(x.r), "") IN
            Try(id, x.r, Enc([t EXCEPT !.kids = @ \o Attrs(x.a) \o (IF x.pub THEN <<Lf(129, BCat("00", PubOf(x.r)))>> ELSE << >>)]))
    [] x.k = "badpub" -> Try(id, x.r, Enc(P8T("1", AlgOf(x.r), InnerOf(x.r), BadPub(x.r, x.i))))
    [] x.k = "unused" -> LET u == DByte(x.v) IN
            Try(id, x.r, CASE x.r = "spki_ed" -> Enc(Nd(48, "", <<EdAlgT, Lf(3, BCat(u, EdPublic(EdSeed)))>>))
                           [] x.r = "sec1_256" -> Enc(Nd(48, "", <<I("1"), Lf(4, Sk("p256")), Nd(161, "", <<Lf(3, BCat(u, Qc("p256")))>>)>>))
                           [] OTHER -> LET t == P8T("1", AlgOf(x.r), InnerOf(x.r), "00") IN Enc([t EXCEPT !.kids[4] = Lf(129, BCat(u, PubOf(x.r)))]))
    [] x.k = "int" -> Try(id, "rsa1", Enc(Nd(48, "", [j \in 1..9 |-> IF j = x.c THEN Lf(2, IntVar(RsaParts[j], x.i)) ELSE I(RsaParts[j])])))
    [] x.k = "pint" -> Try(id, "rsapub", Enc(Nd(48, "", [j \in 1..2 |-> IF j = x.c THEN Lf(2, IntVar(RsaParts[j + 1], x.i)) ELSE I(RsaParts[j + 1])])))
    [] x.k = "rver" -> LET t == [RsaT(K0) EXCEPT !.kids[1] = I(RVers[x.v])] IN IF x.p8 THEN Try(id, "p8_rsa", Enc(P8T("0", RsaAlgT, t, ""))) ELSE Try(id, "rsa1", Enc(t))
    [] x.k = "rt" -> LET d == RtScalar(x.c, x.i)  s1 == Sec1T(x.c, d, TRUE, EcPub(x.c, d))  s0 == Sec1T(x.c, d, FALSE, EcPub(x.c, d)) IN
            Scenario(id, <<Rd(EcR(x.c, 1), Enc(s1))>> \o Exp("p8_256", 400) \o <<Rd(EcR(x.c, 3), Enc(P8T("0", EcAlgT(x.c), s0, "")))>> \o Exp("p8_256", 400))
    [] x.k = "rtd" -> LET d == RtScalar(x.c, x.i) IN \* with every combination of the optional parts
            Scenario(id, Concats([j \in 1..4 |-> <<Rd(EcR(x.c, 1), Enc(Sec1T(x.c, d, j % 2 = 0, IF j > 2 THEN EcPub(x.c, d) ELSE "")))>> \o Exp("p8_256", 400)]))
    [] x.k = "rte" -> LET sd == D(<<x>>, 32) IN
            Scenario(id, <<Rd("p8_ed", Enc(P8T("1", EdAlgT, Lf(4, sd), EdPublic(sd))))>> \o Exp("p8_ed", 200)
               \o <<Rd("p8_ed", Enc(P8T("0", EdAlgT, Lf(4, sd), "")))>> \o Exp("p8_ed", 200) \o <<Rd("spki_ed", Enc(Nd(48, "", <<EdAlgT, Lf(3, BCat("00", EdPublic(sd)))>>)))>> \o Exp("spki_ed", 100))
    [] x.k \in {"rtr", "rtre"} -> LET k == IF x.k = "rtr" THEN Keys[x.nm] ELSE KeysE[x.i] IN
            OpenScenario(id, <<IF x.p8 THEN Rd("p8_rsa", Enc(P8T("0", RsaAlgT, RsaT(k), ""))) ELSE Rd("rsa1", Enc(RsaT(k)))>> \o Exp("rsa1", 6000)
               \o <<Rd("rsapub", Enc(RsaPubT(k)))>> \o Exp("rsapub", 2200))
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
