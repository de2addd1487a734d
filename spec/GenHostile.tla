------------------------------ MODULE GenHostile ------------------------------
(* C16: hostile bytes for everything that takes bytes from a peer or a file:     *)
(* every length with several fillings, DER of absurd shapes, valid objects with  *)
(* several changes at once or spliced, numbers that no sound key contains; and   *)
(* whatever is accepted is then used.                                            *)
EXTENDS TlsCases
R == INSTANCE DerTrees
E == INSTANCE EcCases

\* ---- the readers: a name, what has to exist, and the step that reads x
Curves == {"p256", "p384"}
Sha == <<"sha256", "sha384", "sha512">>
Readers ==
  {<<"ecdsa", c, f>> : c \in Curves, f \in {"sec1", "pkcs8", "raw"}}
  \cup {<<"ecpub", c>> : c \in Curves} \cup {<<"ecver", c, f>> : c \in Curves, f \in {"fixed", "asn1"}}
  \cup {<<"ed", f>> : f \in {"pkcs8", "raw"}} \cup {<<"edpub", f>> : f \in {"spki", "raw"}} \cup {<<"edver">>}
  \cup {<<"rsa", f>> : f \in {"pkcs1", "pkcs8"}} \cup {<<"rsapub">>} \cup {<<"rsaver", p>> : p \in {"pkcs1", "pss"}}
  \cup {<<"xpub">>} \cup {<<"ecdh", c>> : c \in Curves} \cup {<<"ecdhpub", c>> : c \in Curves}
  \cup {<<"aead", a>> : a \in {"gcm", "chacha", "xchacha"}}
  \cup {<<"rec", n>> : n \in SuiteNames} \cup {<<"ticket">>}
  \cup {<<"serve", g>> : g \in {"X25519", "secp256r1", "secp384r1", "X25519MLKEM768"}}
  \cup {<<"complete", g>> : g \in {"X25519", "secp256r1", "secp384r1", "X25519MLKEM768"}} \cup {<<"comphalf">>}
  \cup {<<"tkey", f>> : f \in {"pkcs8", "pkcs1", "sec1"}} \cup {<<"tver", i>> : i \in 1..Cardinality(A!VerAlgs)} \cup {<<"tverpk", i>> : i \in 1..Cardinality(A!VerAlgs)}
Algs == SetToSeq(A!VerAlgs)
M == "616263"
PkFor(a) == CASE a.k = "rsa" -> R!RsaPubDer(R!K0.n, R!K0.e) [] a.k = "ec" -> R!Qc(a.c) [] OTHER -> R!EdPublic(R!EdSeed)
SigFor(a) == CASE a.k = "rsa" -> R!SigOf(R!K0, a.pad, a.hash, M, D("salt", 32))
               [] a.k = "ec" -> A!SigDer(A!EcdsaSign(a.c, a.hash, R!Sk(a.c), A!Hash(a.hash, M), BZero(16)))
               [] OTHER -> R!EdSign(R!EdSeed, R!EdPublic(R!EdSeed), M)
Pre(r) ==
  CASE r[1] = "ecver" -> <<[op |-> "ecdsa.loadpub", curve |-> r[2], h |-> "v", pt |-> R!Qc(r[2])]>>
    [] r[1] = "edver" -> <<[op |-> "ed25519.loadpub", h |-> "v", fmt |-> "raw", der |-> R!EdPublic(R!EdSeed)]>>
    [] r[1] = "rsaver" -> <<R!LdPub("v", R!K0.n, R!K0.e)>>
    [] r[1] = "aead" -> <<[op |-> "aead.new", alg |-> r[2], h |-> "k", k |-> D("ak", 32)]>>
    [] r[1] = "rec" -> <<Dec(r[2], "d")>>
    [] r[1] = "ticket" -> <<[op |-> "tls.ticketer", h |-> "t"]>>
    [] OTHER -> << >>
Use(r) ==
  LET o(s) == s @@ [opt |-> TRUE] IN
  CASE r[1] = "ecdsa" -> <<o([op |-> "ecdsa.sign", h |-> "k", form |-> "asn1", hash |-> "sha256", m |-> <<M>>, n |-> 110]), o([op |-> "ecdsa.export", h |-> "k", fmt |-> "pkcs8", n |-> 400])>>
    [] r[1] = "ecpub" -> <<o([op |-> "ecdsa.verify", h |-> "k", form |-> "fixed", hash |-> "sha256", m |-> <<M>>, sig |-> BRep(1, 2 * E!L(r[2]))])>>
    [] r[1] = "ed" -> <<o([op |-> "ed25519.sign", h |-> "k", m |-> M])>>
    [] r[1] = "edpub" -> <<o([op |-> "ed25519.verify", h |-> "k", m |-> M, sig |-> BSet(BRep(1, 64), 63, 0)])>>
    [] r[1] = "rsa" -> <<o(R!Sg("k", "pss", "sha256", M, 1024)), o(R!Sg("k", "pkcs1", "sha256", M, 1024)), o(R!Ex("k", "pkcs1", 5000))>>
    [] r[1] = "rsapub" -> <<o(R!V("k", "pkcs1", "sha256", M, BRep(1, 256))), o(R!Ex("k", "spki", 2000))>>
    [] r[1] = "tkey" -> <<o([op |-> "tls.choose", h |-> "k", to |-> "s", schemes |-> <<2052, 1027, 1283, 2055>>]), o([op |-> "tls.sign", h |-> "s", m |-> M])>>
    [] OTHER -> << >>
Read(r, x) ==
  CASE r[1] = "ecdsa" -> <<[op |-> "ecdsa.load", curve |-> r[2], h |-> "k", fmt |-> r[3], der |-> x]>>
    [] r[1] = "ecpub" -> <<[op |-> "ecdsa.loadpub", curve |-> r[2], h |-> "k", pt |-> x]>>
    [] r[1] = "ecver" -> <<[op |-> "ecdsa.verify", h |-> "v", form |-> r[3], hash |-> Sha[1 + (BLen(x) % 3)], m |-> <<M>>, sig |-> x]>>
    [] r[1] = "ed" -> <<[op |-> "ed25519.load", h |-> "k", fmt |-> r[2], der |-> x]>>
    [] r[1] = "edpub" -> <<[op |-> "ed25519.loadpub", h |-> "k", fmt |-> r[2], der |-> x]>>
    [] r[1] = "edver" -> <<[op |-> "ed25519.verify", h |-> "v", m |-> M, sig |-> x]>>
    [] r[1] = "rsa" -> <<[op |-> "rsa.load", h |-> "k", fmt |-> r[2], der |-> x]>>
    [] r[1] = "rsapub" -> <<[op |-> "rsa.loadpub", h |-> "k", der |-> x]>>
    [] r[1] = "rsaver" -> <<[op |-> "rsa.verify", h |-> "v", pad |-> r[2], hash |-> Sha[1 + (BLen(x) % 3)], m |-> M, sig |-> x]>>
    [] r[1] = "xpub" -> <<[op |-> "x25519.loadpub", h |-> "p", u |-> x]>>
    [] r[1] = "ecdh" -> <<[op |-> "ecdh.load", curve |-> r[2], h |-> "k", k |-> x]>>
    [] r[1] = "ecdhpub" -> <<[op |-> "ecdh.loadpub", curve |-> r[2], h |-> "k", pt |-> x]>>
    [] r[1] = "aead" -> <<[op |-> "aead.open", h |-> "k", nonce |-> D("n", IF r[2] = "xchacha" THEN 24 ELSE 12), aad |-> BTail(x, BLen(x) \div 2), ct |-> x, tag |-> BHead(BCat(x, BZero(16)), BLen(x) % 24)]>>
    [] r[1] = "rec" -> <<[op |-> "tls.open", h |-> "d", seq |-> N2OS(NInt(BLen(x)), 8), typ |-> 20 + (BLen(x) % 5), ver |-> 768 + (BLen(x) % 6), payload |-> x]>>
    [] r[1] = "ticket" -> <<[op |-> "tls.topen", h |-> "t", t |-> x]>>
    [] r[1] = "serve" -> <<[op |-> "tls.kxserve", group |-> r[2], peer |-> x]>>
    [] r[1] = "complete" -> <<[op |-> "tls.kxstart", h |-> "x", group |-> r[2]], [op |-> "tls.kxcomplete", h |-> "x", peer |-> x]>>
    [] r[1] = "comphalf" -> <<[op |-> "tls.kxstart", h |-> "x", group |-> "X25519MLKEM768"], [op |-> "tls.kxcomplete", h |-> "x", peer |-> x, comp |-> TRUE]>>
    [] r[1] = "tkey" -> <<[op |-> "tls.keyload", h |-> "k", fmt |-> r[2], der |-> x]>>
    [] r[1] = "tver" -> LET a == Algs[r[2]] IN <<[op |-> "tls.verify", pkalg |-> a.pk, sigalg |-> a.sg, pk |-> PkFor(a), m |-> M, sig |-> x]>>
    [] r[1] = "tverpk" -> LET a == Algs[r[2]] IN <<[op |-> "tls.verify", pkalg |-> a.pk, sigalg |-> a.sg, pk |-> x, m |-> M, sig |-> SigFor(a)]>>
\* something the reader accepts, or could if it were not a ciphertext of unknown key
Valid(r) ==
  CASE r[1] = "ecdsa" -> IF r[3] = "raw" THEN R!Sk(r[2]) ELSE IF r[3] = "sec1" THEN R!Enc(R!Sec1T(r[2], R!Sk(r[2]), TRUE, R!Qc(r[2]))) ELSE R!Enc(R!P8T("1", R!EcAlgT(r[2]), R!Sec1T(r[2], R!Sk(r[2]), TRUE, R!Qc(r[2])), R!Qc(r[2])))
    [] r[1] \in {"ecpub", "ecdhpub"} -> R!Qc(r[2])
    [] r[1] = "ecdh" -> R!Sk(r[2])
    [] r[1] = "ecver" -> LET s == A!EcdsaSign(r[2], "sha256", R!Sk(r[2]), A!Hash("sha256", M), BZero(16)) IN IF r[3] = "asn1" THEN A!SigDer(s) ELSE BCat(N2OS(s.r, E!L(r[2])), N2OS(s.s, E!L(r[2])))
    [] r[1] = "ed" -> IF r[2] = "raw" THEN R!EdSeed ELSE R!Enc(R!Trees["p8_ed2"])
    [] r[1] = "edpub" -> IF r[2] = "raw" THEN R!EdPublic(R!EdSeed) ELSE R!Enc(R!Trees["spki_ed"])
    [] r[1] = "edver" -> R!EdSign(R!EdSeed, R!EdPublic(R!EdSeed), M)
    [] r[1] = "rsa" -> IF r[2] = "pkcs1" THEN R!RsaPrivDer(R!K0) ELSE R!RsaPkcs8Der(R!K0)
    [] r[1] = "rsapub" -> R!RsaPubDer(R!K0.n, R!K0.e)
    [] r[1] = "rsaver" -> R!SigOf(R!K0, r[2], "sha256", M, D("salt", 32))
    [] r[1] = "xpub" -> A!X25519Base(D("x", 32))
    [] r[1] = "aead" -> D("ct", 100)
    [] r[1] = "rec" -> D("payload", 120)
    [] r[1] = "ticket" -> D("ticket", 150)
    [] r[1] \in {"serve", "complete"} -> CASE r[2] = "X25519" -> A!X25519Base(D("x", 32)) [] r[2] = "secp256r1" -> R!Qc("p256") [] r[2] = "secp384r1" -> R!Qc("p384")
           [] OTHER -> IF r[1] = "serve" THEN BCat(A!MlKeyGen(D("s", 64)).ek, A!X25519Base(D("x", 32))) ELSE BCat(D("ct", 1088), A!X25519Base(D("x", 32)))
    [] r[1] = "comphalf" -> A!X25519Base(D("x", 32))
    [] r[1] = "tkey" -> CASE r[2] = "pkcs8" -> R!Enc(R!Trees["p8_256full"]) [] r[2] = "sec1" -> R!Enc(R!Trees["sec1_384"]) [] OTHER -> R!RsaPrivDer(R!K0)
    [] r[1] = "tver" -> SigFor(Algs[r[2]])
    [] r[1] = "tverpk" -> PkFor(Algs[r[2]])

\* ---- absurd DER
DHead(i) == <<"80", "81", "8100", "817f", "8180", "81ff", "82", "8200", "820000", "82ffff", "830100", "84ffffffff", "847fffffff", "8801020304050607", "fe", "ff">>[i + 1]
RECURSIVE Nest(_, _)
Nest(n, x) == IF n = 0 THEN x ELSE Nest(n - 1, R!DTlv(48, x))
Bomb(i) ==
  CASE i \in 0..15 -> BCatSeq(<<"30", DHead(i), D(<<"bomb", i>>, 40)>>)
    [] i = 16 -> Nest(20, "") [] i = 17 -> Nest(60, R!DNull) [] i = 18 -> Nest(400, "")
    [] i = 19 -> BRep(48, 2000) [] i = 20 -> BCatSeq([j \in 1..500 |-> "3080"]) [] i = 21 -> BRep(128, 300) [] i = 22 -> BRep(255, 5000)
    [] i = 23 -> R!DSeq(<<R!DTlv(2, "")>>) [] i = 24 -> R!DSeq(<<R!DTlv(2, ""), R!DTlv(2, "")>>) [] i = 25 -> R!DSeq([j \in 1..9 |-> R!DTlv(2, "")]) [] i = 26 -> R!DSeq([j \in 1..9 |-> R!DInt("0")])
    [] i = 27 -> R!DSeq([j \in 1..9 |-> R!DTlv(2, "ff")]) [] i = 28 -> R!DSeq(<<R!DTlv(2, BRep(127, 1030)), R!DInt("3")>>) [] i = 29 -> R!DSeq(<<R!DTlv(2, BRep(127, 8000)), R!DTlv(2, BRep(127, 8000))>>)
    [] i = 30 -> R!DSeq(<<R!DInt("0")>> \o [j \in 1..8 |-> R!DTlv(2, BRep(127, 7000))]) [] i = 31 -> R!DSeq(<<R!DInt("0")>> \o [j \in 1..8 |-> R!DTlv(2, BRep(127, 1024))])
    [] i = 32 -> R!DSeq(<<R!DInt("0")>> \o [j \in 1..8 |-> R!DInt("1")]) [] i = 33 -> R!DSeq(<<R!DInt("0"), R!Enc(R!EcAlgT("p256"))>>)
    [] i = 34 -> R!DSeq(<<R!DInt("0"), R!Enc(R!RsaAlgT), R!DTlv(4, "")>>) [] i = 35 -> R!DSeq(<<R!DInt("0"), R!Enc(R!EdAlgT), R!DTlv(4, "04")>>) [] i = 36 -> R!DSeq(<<R!DInt("0"), R!Enc(R!EdAlgT), R!DTlv(4, "0421")>>)
    [] i = 37 -> R!DSeq(<<R!DInt("0"), R!Enc(R!EcAlgT("p384")), R!DTlv(4, "30")>>) [] i = 38 -> R!DSeq(<<R!DInt("1"), R!DTlv(4, "")>>) [] i = 39 -> R!DSeq(<<R!DInt("1"), R!DTlv(4, BRep(1, 5000))>>)
    [] i = 40 -> R!DSeq(<<R!DInt("1"), R!DTlv(4, BRep(1, 32)), R!DTlv(160, "")>>) [] i = 41 -> R!DSeq(<<R!DInt("1"), R!DTlv(4, BRep(1, 48)), R!DTlv(161, "0300")>>) [] i = 42 -> R!DSeq(<<R!DInt("1"), R!DTlv(4, BRep(1, 32)), R!DTlv(161, "030100")>>)
    [] i = 43 -> R!DSeq(<<R!Enc(R!EdAlgT), R!DTlv(3, "")>>) [] i = 44 -> R!DSeq(<<R!Enc(R!EdAlgT), R!DTlv(3, "00")>>) [] OTHER -> R!DSeq(<<R!Enc(R!EdAlgT), R!DTlv(3, BCat("07", BRep(1, 32)))>>)
NBomb == 46

\* ---- several changes at once
Byte(l) == PickS(l, <<"00", "01", "7f", "80", "81", "82", "ff", "30", "02", "04", "03", "a0", "a1", "fe">>)
RECURSIVE Edit(_, _, _)
Edit(l, x, n) ==
  IF n = 0 THEN x
  ELSE LET len == BLen(x)
           at == RndN(<<l, n, "at">>, len + 1)
           cnt == RndN(<<l, n, "cnt">>, Min(8, len - at) + 1)
           a == BHead(x, at)  z == BTail(x, at)
           y == CASE RndN(<<l, n>>, 8) = 0 -> BCat(a, BTail(z, cnt))                               \* delete
                  [] RndN(<<l, n>>, 8) = 1 -> BCatSeq(<<a, Byte(<<l, n, "i">>), z>>)               \* insert
                  [] RndN(<<l, n>>, 8) = 2 -> BCatSeq(<<a, BHead(z, cnt), z>>)                     \* double
                  [] RndN(<<l, n>>, 8) = 3 -> IF at = len THEN a ELSE BCatSeq(<<a, Byte(<<l, n, "s">>), BTail(z, 1)>>)
                  [] RndN(<<l, n>>, 8) = 4 -> IF at = len THEN a ELSE BFlip(x, 8 * at + (cnt % 8))
                  [] RndN(<<l, n>>, 8) = 5 -> IF len = 0 THEN x ELSE BSet(x, Min(at, len - 1), (BAt(x, Min(at, len - 1)) + 1) % 256)
                  [] RndN(<<l, n>>, 8) = 6 -> IF len = 0 THEN x ELSE BSet(x, Min(at % 12, len - 1), (BAt(x, Min(at % 12, len - 1)) + 255) % 256)
                  [] OTHER -> IF RndN(<<l, n, "c">>, 4) = 0 THEN a ELSE x
       IN  Edit(l, y, n - 1)

\* ---- RSA keys whose numbers make no sense
Comp == <<"n", "e", "d", "p", "q", "dp", "dq", "iqmp">>
Odd8192 == NSub(NPow2(8192), "1")
Wild(k, i) ==
  CASE i = 0 -> "0" [] i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] i = 4 -> k.n [] i = 5 -> k.p [] i = 6 -> k.q [] i = 7 -> NSub(k.n, "1") [] i = 8 -> NAdd(k.n, "1")
    [] i = 9 -> Odd8192 [] i = 10 -> NPow2(2048) [] i = 11 -> NSub(NPow2(2048), "1") [] i = 12 -> NSub(k.p, "1") [] i = 13 -> NSub(k.q, "1") [] i = 14 -> NMul(k.p, k.p)
    [] i = 15 -> NAdd(k.p, "2") [] i = 16 -> NShr(k.p, 1) [] i = 17 -> NPow2(1023) [] i = 18 -> NSub(NPow2(1024), "1") [] i = 19 -> NPow2(1024) [] i = 20 -> "ffffffff" [] i = 21 -> "100000001"
    [] i = 22 -> NMul(k.n, k.n) [] i = 23 -> NPow2(8192) [] OTHER -> NPow2(9000)
WildKey(c, i) == LET k == R!K0 IN [k EXCEPT ![Comp[c]] = Wild(k, i)]
Lim(n) == IF Thorough THEN 12 * n ELSE n
Big == {<<"rsa", "pkcs1">>, <<"rsa", "pkcs8">>, <<"tkey", "pkcs1">>, <<"tkey", "pkcs8">>}

Many(r) == r[1] \in {"tver", "tverpk", "rec"}      \* those that come in many kinds
Cases ==
   {y \in [k : {"len"}, r : Readers, b : 0..19, f : 0..4] : Thorough \/ RndN(<<Seed, y>>, IF Many(y.r) THEN 9 ELSE 3) = 0}
   \cup [k : {"prefix"}, r : Readers, b : 0..7]
   \cup [k : {"bomb"}, r : Readers, b : 0..((NBomb \div 8))]
   \cup [k : {"edit"}, r : Readers, w : 1..Lim(12)]
   \cup [k : {"splice"}, r : Readers, w : 1..Lim(3)]
   \cup [k : {"wild"}, c : 1..8, i : 0..24]
   \cup [k : {"wild2"}, c : 1..8, d : 1..8, w : 1..Lim(2)]
   \cup [k : {"huge"}, r : Readers, n : (IF Thorough THEN {20000, 65535, 65536, 200000} ELSE {65536})]
Fill(f, l, n) == CASE f = 0 -> BZero(n) [] f = 1 -> BRep(255, n) [] f = 2 -> D(l, n) [] f = 3 -> IF n = 0 THEN "" ELSE BSet(D(l, n), 0, 4)
                   [] OTHER -> IF n < 2 THEN BZero(n) ELSE IF n < 130 THEN BSet(BSet(D(l, n), 0, 48), 1, n - 2) ELSE IF n < 258 THEN BCatSeq(<<"3081", BOf(<<n - 3>>), D(l, n - 3)>>) ELSE BCatSeq(<<"3082", BOf(<<(n - 4) \div 256, (n - 4) % 256>>), D(l, n - 4)>>)
Cut(r, j, n) == LET v == Valid(r) IN BHead(v, (BLen(v) * j) \div n)
Sc(x) ==
  LET id == ToString(<<"ho", x>>)
      r == x.r
      rd(v) == Read(r, v) \o Use(r)
  IN
  CASE x.k = "len" -> OpenScenario(id, Pre(r) \o Concats([j \in 1..16 |-> rd(Fill(x.f, <<x, j>>, 16 * x.b + j - 1))]))
    [] x.k = "prefix" -> OpenScenario(id, Pre(r) \o Concats([j \in 1..20 |-> rd(Cut(r, 20 * x.b + j, 160))]))
    [] x.k = "bomb" -> OpenScenario(id, Pre(r) \o Concats([j \in 1..8 |-> rd(Bomb(Min(8 * x.b + j - 1, NBomb - 1)))]))
    [] x.k = "edit" -> OpenScenario(id, Pre(r) \o Concats([j \in 1..(IF r \in Big THEN 5 ELSE 12) |-> rd(Edit(<<x, j>>, Valid(r), 1 + (j % 6)))]))
    [] x.k = "splice" -> OpenScenario(id, Pre(r) \o Concats([j \in 1..10 |-> LET v == Valid(r)  s == PickS(<<x, j>>, SetToSeq(Readers))  w == Valid(s) IN
            rd(BCat(BHead(v, RndN(<<x, j, 1>>, BLen(v) + 1)), BTail(w, RndN(<<x, j, 2>>, BLen(w) + 1))))]))
    [] x.k = "wild" -> LET k == WildKey(x.c, x.i) IN
         OpenScenario(id, Concats([j \in 1..4 |-> LET q == <<<<"rsa", "pkcs1">>, <<"rsa", "pkcs8">>, <<"tkey", "pkcs1">>, <<"tkey", "pkcs8">>>>[j] IN
             Read(q, IF j % 2 = 1 THEN R!RsaPrivDer(k) ELSE R!RsaPkcs8Der(k)) \o Use(q)]) \o Read(<<"rsapub">>, R!RsaPubDer(k.n, k.e)) \o Use(<<"rsapub">>))
    [] x.k = "wild2" -> LET k == R!K0
            k2 == [[k EXCEPT ![Comp[x.c]] = Wild(k, RndN(<<x, 1>>, 25))] EXCEPT ![Comp[x.d]] = Wild(k, RndN(<<x, 2>>, 25))] IN
         OpenScenario(id, Read(<<"rsa", "pkcs1">>, R!RsaPrivDer(k2)) \o Use(<<"rsa", "pkcs1">>) \o Read(<<"rsapub">>, R!RsaPubDer(k2.n, k2.e)) \o Use(<<"rsapub">>))
    [] x.k = "huge" -> OpenScenario(id, Pre(r) \o rd(BZero(x.n)) \o rd(BRep(48, x.n)) \o rd(D(<<x>>, x.n)))
Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
