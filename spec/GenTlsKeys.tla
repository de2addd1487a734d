------------------------------ MODULE GenTlsKeys ------------------------------
(* C23: private keys in every container, the schemes a peer may offer in every   *)
(* combination, signatures under every scheme and verifier, keys and signatures  *)
(* that do not match, the provider's lists and randomness.                       *)
EXTENDS TlsCases
R == INSTANCE DerTrees

Ids == <<2054, 2053, 2052, 1537, 1281, 1025, 1027, 1283, 2055>>
Odd == <<0, 513, 515, 1539, 2056, 2057, 2058, 2059, 1026, 65535, 514, 1793>>     \* no key of the provider signs with these
KLoad(h, fmt, der) == [op |-> "tls.keyload", h |-> h, fmt |-> fmt, der |-> der]
Choose(h, to, ids) == [op |-> "tls.choose", h |-> h, to |-> to, schemes |-> ids, opt |-> TRUE]
Sign(h, m, to) == [op |-> "tls.sign", h |-> h, m |-> m, to |-> to, opt |-> TRUE]
Ver(a, pk, m, from) == [op |-> "tls.verify", pkalg |-> a.pk, sigalg |-> a.sg, pk |-> pk, m |-> m, from |-> from, opt |-> TRUE]
VerB(a, pk, m, sig) == [op |-> "tls.verify", pkalg |-> a.pk, sigalg |-> a.sg, pk |-> pk, m |-> m, sig |-> sig]
RngS(b, then, at) == [op |-> "rng.set", bytes |-> b, then |-> then, fill |-> 0, failat |-> at]
Algs == SetToSeq(A!VerAlgs)
NAlg == Len(Algs)
AlgOf(id) == CASE id = 1027 -> [pk |-> A!PkAlgEc("p256"), sg |-> A!SigAlgEc("sha256")] [] id = 1283 -> [pk |-> A!PkAlgEc("p384"), sg |-> A!SigAlgEc("sha384")]
               [] id = 2055 -> [pk |-> A!AlgEd, sg |-> A!AlgEd] [] OTHER -> [pk |-> A!PkAlgRsa, sg |-> A!FirstAlg(id)[2]]
Fmts == {"pkcs8", "pkcs1", "sec1"}
TreeNames == DOMAIN R!Trees
\* the keys used for signing
Kinds == {"rsa", "p256", "p384", "ed"}
KeyDer(kd) == CASE kd = "rsa" -> R!RsaPkcs8Der(R!K0) [] kd = "ed" -> R!Enc(R!Trees["p8_ed1"]) [] OTHER -> A!EcPkcs8Der(kd, R!Sk(kd))
PubOf(kd) == CASE kd = "rsa" -> R!RsaPubDer(R!K0.n, R!K0.e) [] kd = "ed" -> R!EdPublic(R!EdSeed) [] OTHER -> R!Qc(kd)
Mine(kd) == CASE kd = "rsa" -> <<2054, 2053, 2052, 1537, 1281, 1025>> [] kd = "p256" -> <<1027>> [] kd = "p384" -> <<1283>> [] OTHER -> <<2055>>
KindOf(id) == CASE id = 1027 -> "p256" [] id = 1283 -> "p384" [] id = 2055 -> "ed" [] OTHER -> "rsa"
\* another key of the kind
PubTwo(kd) == CASE kd = "rsa" -> R!RsaPubDer(R!Keys["c2048"].n, R!Keys["c2048"].e) [] kd = "ed" -> R!EdPublic(D("ed2", 32)) [] OTHER -> A!EcPub(kd, "5")
Subset(b) == SelectSeq([i \in 1..9 |-> IF (b \div (2 ^ (i - 1))) % 2 = 1 THEN Ids[i] ELSE -1], LAMBDA v : v >= 0)
Mix(l, s) == \* a shuffle, with foreign identifiers between
    LET F[i \in 0..Len(s)] == IF i = 0 THEN <<Odd[1 + RndN(<<l, "odd">>, 12)]>> ELSE LET k == RndN(<<l, i>>, i + 1) IN SubSeq(F[i - 1], 1, k) \o <<s[i]>> \o SubSeq(F[i - 1], k + 1, i)
    IN F[Len(s)]
All9 == <<1025, 1281, 1537, 1027, 2055, 1283, 2052, 2053, 2054>>
HashNm(i) == <<"sha256", "sha384", "sha512">>[i]
\* signatures made without the library
EcSigOf(c, h, m) == A!EcdsaSign(c, h, R!Sk(c), A!Hash(h, m), D(<<c, h>>, 16))
EcSig(c, h, m) == A!SigDer(EcSigOf(c, h, m))
EdSig(m) == R!EdSign(R!EdSeed, R!EdPublic(R!EdSeed), m)
RsaSig(pad, h, m, sl) == R!SigOf(R!K0, pad, h, m, D(<<"salt", h>>, sl))
EcForm(c, i, m) ==
    LET s == EcSigOf(c, "sha256", m)  n == A!Curve(c).n IN
    CASE i = 0 -> A!SigDer(s) [] i = 1 -> A!SigDer([s EXCEPT !.s = NSub(n, s.s)]) [] i = 2 -> A!SigDer([s EXCEPT !.s = NAdd(n, s.s)])
      [] i = 3 -> A!SigDer([s EXCEPT !.r = NAdd(n, s.r)]) [] i = 4 -> A!SigDer([s EXCEPT !.r = "0"]) [] i = 5 -> A!SigDer([s EXCEPT !.s = "0"])
      [] i = 6 -> A!SigDer([r |-> s.s, s |-> s.r]) [] i = 7 -> BCatSeq(<<N2OS(s.r, A!Curve(c).len), N2OS(s.s, A!Curve(c).len)>>)
      [] i = 8 -> BCat(A!SigDer(s), "00") [] i = 9 -> BHead(A!SigDer(s), BLen(A!SigDer(s)) - 1) [] i = 10 -> ""
      [] i = 11 -> A!SigDer([r |-> n, s |-> n]) [] i = 12 -> A!SigDer([r |-> "1", s |-> "1"]) [] i = 13 -> BCat("00", A!SigDer(s))
      [] i = 14 -> R!DSeq(<<R!DInt(s.r), R!DInt(s.s), R!DNull>>) [] i = 15 -> R!DSeq(<<R!DInt(s.r)>>)
      [] OTHER -> R!DSeq(<<R!DTlv(2, BCat("00", R!DIntBody(s.r))), R!DInt(s.s)>>)
EdL == NAdd(NPow2(252), "14def9dea2f79cd65812631a5cf5d3ed")
EdForm(i, m) ==
    LET g == EdSig(m)  s == LE2N(BTail(g, 32)) IN
    CASE i = 0 -> g [] i = 1 -> BCat(BHead(g, 32), N2LE(NAdd(s, EdL), 32)) [] i = 2 -> BCat(g, "00") [] i = 3 -> BHead(g, 63) [] i = 4 -> ""
      [] i = 5 -> BZero(64) [] i = 6 -> BCat(BTail(g, 32), BHead(g, 32)) [] i = 7 -> BFlip(g, 255) [] i = 8 -> BFlip(g, 511) [] OTHER -> BFlip(g, 8 * i)
Lim(n) == IF Thorough THEN 8 * n ELSE n

Cases ==
   {[k |-> "provider"]}
   \cup [k : {"load"}, t : TreeNames, f : Fmts]
   \cup [k : {"mut"}, t : TreeNames \ {"spki_ed", "spki_256", "spki_rsa", "rsapub"}, m : 1..R!NMut]
   \cup [k : {"junk"}, f : Fmts, w : 1..Lim(12)]
   \cup [k : {"offer"}, kd : Kinds, b : 0..31]
   \cup [k : {"order"}, kd : Kinds, w : 1..Lim(16)]
   \cup [k : {"sign"}, id : Range(Ids), w : 1..Lim(6)]
   \cup [k : {"cross"}, i : 1..NAlg, j : 1..NAlg]
   \cup [k : {"size"}, nm : R!Sizes \cup R!Refused, id : {2054, 2053, 2052, 1537, 1281, 1025}]
   \cup [k : {"large"}, nm : R!Large, id : {2054, 1025}]
   \cup [k : {"echash"}, c : {"p256", "p384"}, h : 1..3]
   \cup [k : {"ecform"}, c : {"p256", "p384"}, i : 0..16]
   \cup [k : {"edform"}, i : 0..24]
   \cup [k : {"rsaform"}, h : 1..3, i : 0..9]
   \cup [k : {"pkform"}, kd : Kinds, i : 0..9]
   \cup [k : {"rng"}, kd : Kinds, n : 0..4]
   \cup [k : {"bits"}, id : {2052, 1025, 1027, 1283, 2055}, w : 0..15]
   \cup [k : {"random"}, n : {0, 1, 2, 31, 32, 33, 64, 255, 256, 1000}]
Sc(x) ==
  LET id == ToString(<<"tk", x>>)
      m == D(<<x, "msg">>, RndN(<<x, "len">>, 300))
  IN
  CASE x.k = "provider" -> Scenario(id, <<[op |-> "tls.provider"]>>)
    [] x.k = "load" -> OpenScenario(id, <<KLoad("k", x.f, R!Enc(R!Trees[x.t])), Choose("k", "s", All9), Sign("s", m, "g")>>
            \o Concats([j \in 1..4 |-> LET kd == <<"rsa", "p256", "p384", "ed">>[j] IN [a \in 1..NAlg |-> Ver(Algs[a], PubOf(kd), m, "g")]]))
    [] x.k = "mut" -> OpenScenario(id, Concats([j \in 1..Cardinality(R!Paths(R!Trees[x.t])) |->
            LET der == R!EncM(R!Trees[x.t], SetToSeq(R!Paths(R!Trees[x.t]))[j], x.m)
                f == IF x.t \in {"sec1_256", "sec1_384", "sec1_bare"} THEN "sec1" ELSE IF x.t = "rsa1" THEN "pkcs1" ELSE "pkcs8" IN
            <<KLoad("k" \o ToString(j), f, der), Choose("k" \o ToString(j), "s", <<2055, 1283, 1027, 2053>>)>>]))
    [] x.k = "junk" -> Scenario(id, [j \in 1..20 |-> LET n == RndN(<<x, j>>, 60) IN
            KLoad("k", x.f, BCatSeq(<<"30", BOf(<<n>>), D(<<x, j>>, n)>>))] \o <<KLoad("k", x.f, ""), KLoad("k", x.f, BZero(x.w)), KLoad("k", x.f, BRep(48, x.w))>>)
    [] x.k = "offer" -> Scenario(id, <<KLoad("k", "pkcs8", KeyDer(x.kd))>> \o [j \in 1..16 |-> Choose("k", "s", Subset(16 * x.b + j - 1))])
    [] x.k = "order" -> Scenario(id, <<KLoad("k", "pkcs8", KeyDer(x.kd))>> \o Concats([j \in 1..6 |->
            <<Choose("k", "s", Mix(<<x, j>>, Subset(RndN(<<x, j, "b">>, 512)))), Sign("s", m, "g" \o ToString(j))>>]))
    [] x.k = "sign" -> LET kd == KindOf(x.id)  m2 == BCat(m, "00") IN
         Scenario(id, <<KLoad("k", "pkcs8", KeyDer(kd)), Choose("k", "s", <<x.id>>), Sign("s", m, "g")>>
            \o [a \in 1..NAlg |-> Ver(Algs[a], PubOf(kd), m, "g")]
            \o <<Ver(AlgOf(x.id), PubOf(kd), m2, "g"), Ver(AlgOf(x.id), PubOf(kd), "", "g"), Ver(AlgOf(x.id), PubTwo(kd), m, "g"),
                 Ver(AlgOf(x.id), PubOf(kd), m, "g") @@ [flip |-> 8 * x.w + 3], Ver(AlgOf(x.id), PubOf(kd), m, "g") @@ [cut |-> x.w], Ver(AlgOf(x.id), PubOf(kd), m, "g") @@ [add |-> "00"],
                 Ver(AlgOf(x.id), PubOf(kd), m, "g") @@ [cuthead |-> 1], Ver(AlgOf(x.id), PubOf(kd), m, "g"), Sign("s", m2, "g2"), Ver(AlgOf(x.id), PubOf(kd), m2, "g2"), Ver(AlgOf(x.id), PubOf(kd), m2, "g")>>)
    [] x.k = "cross" -> \* a key algorithm with a signature algorithm of another kind
         Scenario(id, Concats([j \in 1..4 |-> LET kd == <<"rsa", "p256", "p384", "ed">>[j] IN
            <<VerB([pk |-> Algs[x.i].pk, sg |-> Algs[x.j].sg], PubOf(kd), m, IF kd = "rsa" THEN RsaSig("pkcs1", "sha256", m, 32) ELSE IF kd = "ed" THEN EdSig(m) ELSE EcSig(kd, "sha256", m))>>]))
    [] x.k \in {"size", "large"} -> LET k == R!Keys[x.nm]  pk == R!RsaPubDer(k.n, k.e) IN
         OpenScenario(id, <<KLoad("k", "pkcs1", R!RsaPrivDer(k)), Choose("k", "s", <<x.id>>), Sign("s", m, "g"), Ver(AlgOf(x.id), pk, m, "g"), Ver(AlgOf(x.id), pk, BCat(m, "01"), "g"),
                        Ver(AlgOf(x.id), pk, m, "g") @@ [add |-> "00"], Ver(AlgOf(x.id), pk, m, "g") @@ [puttail |-> D(<<x>>, 32)],
                        VerB(AlgOf(x.id), pk, m, BZero((NBits(k.n) + 7) \div 8)), VerB(AlgOf(x.id), pk, m, N2OS(k.n, (NBits(k.n) + 7) \div 8))>>)
    [] x.k = "echash" -> Scenario(id, [a \in 1..NAlg |-> VerB(Algs[a], R!Qc(x.c), m, EcSig(x.c, HashNm(x.h), m))])
    [] x.k = "ecform" -> Scenario(id, Concats([a \in 1..NAlg |-> IF Algs[a].k = "ec" THEN <<VerB(Algs[a], R!Qc(x.c), m, EcForm(x.c, x.i, m))>> ELSE << >>]))
    [] x.k = "edform" -> Scenario(id, <<VerB(AlgOf(2055), PubOf("ed"), m, EdForm(x.i, m)), VerB(AlgOf(2055), PubOf("ed"), BCat(m, "00"), EdForm(x.i, m))>>)
    [] x.k = "rsaform" -> LET h == HashNm(x.h)
              sig == CASE x.i = 0 -> RsaSig("pkcs1", h, m, 0) [] x.i \in 1..6 -> RsaSig("pss", h, m, <<0, 20, 32, 48, 64, 33>>[x.i])
                       [] x.i = 7 -> BCat("00", RsaSig("pkcs1", h, m, 0)) [] x.i = 8 -> BTail(RsaSig("pkcs1", h, m, 0), 1) [] OTHER -> "" IN
         Scenario(id, [a \in 1..NAlg |-> VerB(Algs[a], PubOf("rsa"), m, sig)])
    [] x.k = "pkform" -> LET p == PubOf(x.kd)
              q == CASE x.i = 0 -> "" [] x.i = 1 -> BHead(p, BLen(p) - 1) [] x.i = 2 -> BCat(p, "00") [] x.i = 3 -> BTail(p, 1) [] x.i = 4 -> BZero(BLen(p)) [] x.i = 5 -> BRep(255, BLen(p))
                     [] x.i = 6 -> BFlip(p, 0) [] x.i = 7 -> BFlip(p, 8 * BLen(p) - 1) [] x.i = 8 -> BSet(p, 0, 2) [] OTHER -> BFlip(p, 8 * (BLen(p) - 1))
              id0 == Mine(x.kd)[1] IN
         OpenScenario(id, [a \in 1..NAlg |-> VerB(Algs[a], q, m, IF x.kd = "rsa" THEN RsaSig("pss", "sha256", m, 32) ELSE IF x.kd = "ed" THEN EdSig(m) ELSE EcSig(x.kd, "sha256", m))])
    [] x.k = "rng" -> LET i == PickS(<<x>>, Mine(x.kd)) IN
         Scenario(id, <<KLoad("k", "pkcs8", KeyDer(x.kd)), Choose("k", "s", <<i>>), RngS("", "prng", x.n), Sign("s", m, "g"), RngS(BRep(7, 4 * x.n), "fail", 0), Sign("s", m, "g"),
                        RngS("", "prng", 0), Sign("s", m, "g"), Ver(AlgOf(i), PubOf(x.kd), m, "g")>>)
    [] x.k = "bits" -> LET kd == KindOf(x.id) IN \* every bit of a signature, in groups
         Scenario(id, <<KLoad("k", "pkcs8", KeyDer(kd)), Choose("k", "s", <<x.id>>), Sign("s", m, "g")>>
             \o [j \in 1..(IF Thorough THEN 32 ELSE 8) |-> Ver(AlgOf(x.id), PubOf(kd), m, "g") @@ [flip |-> (x.w * 32 + j * (IF Thorough THEN 1 ELSE 4) - 1)]])
    [] x.k = "random" -> Scenario(id, <<[op |-> "tls.random", n |-> x.n, pre |-> "5a"], RngS("", "prng", 1), [op |-> "tls.random", n |-> x.n, pre |-> "5a"],
            RngS(BRep(9, Max(x.n, 1) - 1), "fail", 0), [op |-> "tls.random", n |-> x.n, pre |-> "00"], RngS("", "prng", 0), [op |-> "tls.random", n |-> x.n, pre |-> "00"]>>)
Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
