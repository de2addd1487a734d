------------------------------- MODULE GenLeak -------------------------------
(* C25: runs that differ only in what is secret.                               *)
EXTENDS TlsCases
Hm == INSTANCE Hmac
Lk == INSTANCE Leak
Rc == INSTANCE GenRecords
Xc == INSTANCE GenX25519
Ec == INSTANCE GenEcdh
Sg == INSTANCE ApiSign WITH Obs <- GObs
Rs == INSTANCE GenRsaSign
Ml == INSTANCE GenMlKem
Big == IF Thorough THEN 4 ELSE 1
Drop(h) == [op |-> "drop", h |-> h]
Rng(b) == [op |-> "rng.set", bytes |-> b, then |-> "prng", fill |-> 0]
Bit(n, b) == BFlip(BZero(n), b)
\* secrets of n bytes that a shortcut would treat differently
Odd(l, n, i) ==
    CASE i = 1 -> D(<<l, "s">>, n) [] i = 2 -> BZero(n) [] i = 3 -> BRep(255, n) [] i = 4 -> BCat(BZero(n - 1), "01")
      [] i = 5 -> BCat("80", BZero(n - 1)) [] i = 6 -> BCat(BZero(n - (n \div 2)), D(<<l, "t">>, n \div 2)) [] i = 7 -> BCat(D(<<l, "t">>, n \div 2), BZero(n - (n \div 2)))
      [] OTHER -> D(<<l, "s", i>>, n)
\* scalars below the order
Nn(c) == Ec!N(c)
Scal(c, l, i) ==
    LET v == CASE i = 1 -> D(<<l, "k">>, Ec!L(c)) [] i = 2 -> BCat(BZero(Ec!L(c) - 1), "01") [] i = 3 -> N2OS(NSub(Nn(c), "1"), Ec!L(c))
               [] i = 4 -> N2OS(NPow2(8 * Ec!L(c) - 1), Ec!L(c)) [] i = 5 -> BRep(8, Ec!L(c)) [] i = 6 -> BRep(85, Ec!L(c)) [] i = 7 -> BCat(BZero(Ec!L(c) \div 2), D(<<l, "h">>, Ec!L(c) \div 2))
               [] OTHER -> D(<<l, "k", i>>, Ec!L(c))
    IN  N2OS(NAdd("1", NMod(NSub(OS2N(v), "1"), NSub(Nn(c), "1"))), Ec!L(c))
PeerOf(c) == Sg!EcPub(c, "1234567")

Sec1(c, d) == Sg!DSeq(<<Sg!DInt("1"), Sg!DOct(d)>>)
P8(c, d) == Sg!DSeq(<<Sg!DInt("0"), Sg!EcAlg(c), Sg!DOct(Sec1(c, d))>>)
EdP8(d) == Sg!DSeq(<<Sg!DInt("0"), Sg!EdAlg, Sg!DOct(Sg!DOct(d))>>)
AeadNames == {"aes128", "aes256", "chacha", "xchacha"}
AAlg(a) == IF a \in {"aes128", "aes256"} THEN "gcm" ELSE a
AKl(a) == IF a = "aes128" THEN 16 ELSE 32
ANl(a) == IF a = "xchacha" THEN 24 ELSE 12
AeadRun(a, k, pt, aad, mask, cut) ==
    LET n == D(<<"nonce", a>>, ANl(a))
        x == IF a = "xchacha" THEN A!XChaSeal(k, n, aad, pt) ELSE A!AeadSeal(AAlg(a), k, n, aad, pt)
        Opn(t) == [op |-> "aead.open", h |-> "a", nonce |-> n, aad |-> aad, ct |-> x.ct, tag |-> t, al |-> 3]
    IN  <<[op |-> "aead.new", alg |-> AAlg(a), h |-> "a", k |-> k], [op |-> "aead.seal", h |-> "a", nonce |-> n, aad |-> aad, pt |-> pt, al |-> 3]>>
        \o (IF mask = "" THEN <<Opn(x.tag)>> ELSE <<Opn(BXor(x.tag, mask)), Opn(BHead(BXor(x.tag, mask), cut))>>) \o <<Drop("a")>>
Dh(c, k) == <<[op |-> "ecdh.load", curve |-> c, h |-> "k", k |-> k], [op |-> "ecdh.loadpub", curve |-> c, h |-> "p", pt |-> PeerOf(c)],
              [op |-> "ecdh.dh", h |-> "k", peer |-> "p", api |-> "static"], Drop("k")>>
Sign(c, hash, d, r) == <<Rng(r), [op |-> "ecdsa.load", curve |-> c, h |-> "k", fmt |-> "raw", der |-> d],
                 [op |-> "ecdsa.sign", h |-> "k", form |-> "fixed", hash |-> hash, m |-> <<"616263">>, n |-> 2 * Ec!L(c)], Drop("k")>>
X(k, u) == <<[op |-> "x25519.load", h |-> "k", k |-> k], [op |-> "x25519.loadpub", h |-> "p", u |-> u],
             [op |-> "x25519.dh", h |-> "k", peer |-> "p", api |-> "static"], Drop("k")>>
XGen(r, u) == <<Rng(r), [op |-> "x25519.generate", h |-> "k"], [op |-> "x25519.loadpub", h |-> "p", u |-> u], [op |-> "x25519.dh", h |-> "k", peer |-> "p", api |-> "ephemeral"]>>
EcKey(c, d) == <<[op |-> "ecdsa.load", curve |-> c, h |-> "a", fmt |-> "sec1", der |-> Sec1(c, d)], [op |-> "ecdsa.load", curve |-> c, h |-> "b", fmt |-> "pkcs8", der |-> P8(c, d)],
                 [op |-> "ecdsa.export", h |-> "a", fmt |-> "sec1", n |-> 300], [op |-> "ecdsa.export", h |-> "b", fmt |-> "pkcs8", n |-> 300]>>
EdRun(s) == <<[op |-> "ed25519.load", h |-> "a", fmt |-> "raw", der |-> s], [op |-> "ed25519.sign", h |-> "a", m |-> BAscii("message")],
              [op |-> "ed25519.export", h |-> "a", n |-> 200], [op |-> "ed25519.load", h |-> "b", fmt |-> "pkcs8", der |-> EdP8(s)], Drop("a")>>
HmRun(a, k, m, mask) == <<[op |-> "hmac.new", alg |-> a, h |-> "a", k |-> k], [op |-> "hmac.update", h |-> "a", m |-> m, al |-> 1], [op |-> "hmac.clone", h |-> "a", to |-> "b"],
              [op |-> "hmac.finish", h |-> "b"], [op |-> "hmac.verify", h |-> "a", tag |-> BXor(Hm!HMAC(a, k, m), mask)]>>
HmMask(a, i) == IF i <= 4 THEN Bit(Hm!OutLen(a), 8 * <<0, 1, Hm!OutLen(a) - 1, Hm!OutLen(a) - 9>>[i] + i) ELSE IF i = 5 THEN BRep(255, Hm!OutLen(a)) ELSE D(<<"hm", i>>, Hm!OutLen(a))
KemKey(i) == Ml!MlKeyGen(Ml!SeedOf(20 + i))
\* ciphertexts for one key: valid, or wrong in one place, or everywhere
KemCt(i, j) ==
    LET k == KemKey(i)  c == Ml!MlEncaps(k.ek, D(<<"km", i>>, 32)).ct
    IN  CASE j = 1 -> c [] j = 2 -> BFlip(c, 0) [] j = 3 -> BFlip(c, 8 * 1087 + 7) [] j = 4 -> BFlip(c, 8 * 959) [] j = 5 -> BFlip(c, 8 * 960)
          [] j = 6 -> BZero(1088) [] j = 7 -> BRep(255, 1088) [] j = 8 -> Ml!MlEncaps(k.ek, D(<<"km2", i>>, 32)).ct [] OTHER -> D(<<"kc", i, j>>, 1088)
KemRun(seed, c) == <<Ml!Kg(seed), Ml!Dec(c), Drop("d")>>
\* the same d, another z
KemZ(i, j) == BCat(BHead(Ml!SeedOf(20 + i), 32), IF j = 1 THEN BTail(Ml!SeedOf(20 + i), 32) ELSE Odd(<<"z", i>>, 32, j))
(* secrets with which something computed from them starts or ends in a zero byte
   (found by search, asserted below): the X25519 and ECDH shared values, k of ECDSA *)
XRare == [lo |-> 593, hi |-> 107]
XKey(i) == BCat("08", BCat(BRep(i % 251, 1), BCat(BRep(i \div 251, 1), D("fx", 29))))
DhRare == [p256 |-> 348, p384 |-> 151]
NRare == [p256 |-> 54, p384 |-> 358]
NExtra(i) == BCat(D("rr", 13), BCat(BRep(i % 251, 1), BCat(BRep(i \div 251, 1), "00")))
ASSUME PropInt("small") = 1 \/
    /\ BHead(Xc!X25519(XKey(XRare.lo), D("peer", 32)), 1) = "00" /\ BTail(Xc!X25519(XKey(XRare.hi), D("peer", 32)), 31) = "00"
    /\ \A c \in Ec!Curves :
        /\ BHead(N2OS(Ec!EcMul(c, ToString(DhRare[c]), Ec!EcBase(c, "1234567"))[1], Ec!L(c)), 1) = "00"
        /\ BHead(N2OS(Sg!EcdsaNonce(c, "sha512", OS2N(Scal(c, "ecdsarng", 1)), Hm!Hash("sha512", "616263"), NExtra(NRare[c])), Ec!L(c)), 1) = "00"
RsaRun(k, pad, hash, r) == <<Rng(r), [Rs!LdPriv("k", k) EXCEPT !.h = "k"], Rs!Sg("k", pad, hash, "616263", Rs!ModLen(k.n)), [op |-> "rsa.pub", h |-> "k", to |-> "v"], Drop("k")>>
DerLens(k) == [c \in {"d", "p", "q", "dp", "dq", "iqmp"} |-> BLen(Rs!DInt(k[c]))]
\* the same public key: the primes the other way around, other private exponents of the same length
RsaAlike(nm, j) ==
    LET k == Rs!Keys[nm]  s == Rs!Swapped(k)  l == Rs!Lcm(k)
    IN  CASE j = 1 -> k [] j = 2 -> s [] j = 3 -> [s EXCEPT !.d = k.d] [] OTHER -> k
RsaOk(nm) == DerLens(Rs!Keys[nm]) = DerLens(Rs!Swapped(Rs!Keys[nm]))
RsaNames == {nm \in Rs!Sizes : RsaOk(nm)}
RsaQuick == LET s == {nm \in RsaNames : nm \in {"b2048", "x2048"}}  one == CHOOSE nm \in s : TRUE
            IN  {<<nm, IF nm = one THEN "pss" ELSE "pkcs1">> : nm \in s}
Masks16(i) == IF i <= 16 THEN Bit(16, 8 * (i - 1) + (i % 8)) ELSE IF i = 17 THEN BRep(255, 16) ELSE IF i = 18 THEN BCat(BZero(12), "01020304") ELSE BCat("01020304", BZero(12))
HashAlgs == {"sha256", "sha384", "sha512"}

\* each case: the runs numbered 1 and x.is, which differ only in their secrets
To(n) == [j \in 1..(n - 1) |-> j + 1]
Small ==
   [k : {"hash"}, a : HashAlgs, n : {0, 1, 55, 64, 127, 128, 200, 300, 640}, is : {To(2)}]
   \cup [k : {"sha3"}, a : {"sha3_256", "sha3_512"}, n : {0, 1, 71, 72, 136, 300}, is : {To(2)}]
   \cup [k : {"xof"}, a : {"shake128", "shake256"}, n : {1, 32, 168, 300}, is : {To(2)}]
   \cup [k : {"eq"}, a : HashAlgs, is : {To(6)}]
   \cup [k : {"hmac"}, a : HashAlgs, n : {0, 16, 32, 64, 65, 128, 129, 200}, is : {To(2)}]
   \cup [k : {"hmtag"}, a : HashAlgs, is : {To(6)}]
   \cup [k : {"prf"}, a : {"sha256", "sha384"}, n : {32, 48, 100}, is : {To(2)}]
   \cup [k : {"aead"}, a : AeadNames, n : {0, 1, 15, 16, 17, 33, 64, 100, 255, 256, 300, 1024}, is : {To(3)}]
   \cup [k : {"aeadtag"}, a : AeadNames, is : {To(19)}]
   \cup [k : {"rec"}, n : SuiteNames, is : {To(4)}]
   \cup [k : {"tick"}, is : {To(4)}]
Heavy ==
   {x \in [k : {"x25519"}, is : {To(3), To(8 * Big)}, u : 0..7] : (x.u = 0) = (x.is = To(8 * Big)) /\ (Thorough \/ x.u <= 3)}
   \cup [k : {"x25519gen"}, is : {To(3 * Big)}]
   \cup [k : {"p256"}, is : {To(7 * Big)}] \cup [k : {"p384"}, is : {To(4 * Big)}]
   \cup [k : {"xrare"}, is : {To(3)}] \cup [k : {"dhrare", "nrare"}, c : Ec!Curves, is : {To(2)}]
   \cup [k : {"eckey"}, c : Ec!Curves, is : {To(2 * Big)}]
   \cup [k : {"ecdsa"}, c : {"p256"}, is : {To(5 * Big)}] \cup [k : {"ecdsa"}, c : {"p384"}, is : {<<2, 5>>}]
   \cup [k : {"ecdsarng"}, c : Ec!Curves, is : {To(2)}]
   \cup [k : {"ed"}, is : {To(6 * Big)}]
   \cup [k : {"encaps"}, i : 0..1, is : {To(4 * Big)}]
   \cup [k : {"decaps"}, i : 1..Big, is : {To(9)}]
   \cup [k : {"kemz"}, i : 1..Big, is : {To(4)}]
   \cup {x \in [k : {"rsa"}, nm : RsaNames, pad : Rs!Pads, is : {To(2)}] : Thorough \/ <<x.nm, x.pad>> \in RsaQuick}
   \cup {x \in [k : {"rsasalt"}, nm : {"b2048"}, is : {To(2)}] : Thorough}
Cases == IF PropInt("small") = 1 THEN Small ELSE Heavy

Runs(x, i) ==
  CASE x.k = "x25519" -> X(Odd("x", 32, i), IF x.u = 0 THEN D("peer", 32) ELSE Xc!LowOrder[x.u])
    [] x.k = "x25519gen" -> XGen(Odd("xg", 32, i), D("peer", 32))
    [] x.k = "xrare" -> X(XKey(IF i = 1 THEN 2 ELSE IF i = 2 THEN XRare.lo ELSE XRare.hi), D("peer", 32))
    [] x.k = "dhrare" -> Dh(x.c, N2OS(IF i = 1 THEN "300" ELSE ToString(DhRare[x.c]), Ec!L(x.c)))
    [] x.k = "nrare" -> Sign(x.c, "sha512", Scal(x.c, "ecdsarng", 1), NExtra(IF i = 1 THEN 1 ELSE NRare[x.c]))
    [] x.k = "p256" -> Dh("p256", Scal("p256", x.k, i))
    [] x.k = "p384" -> Dh("p384", Scal("p384", x.k, i))
    [] x.k = "eckey" -> EcKey(x.c, Scal(x.c, x.k, i))
    [] x.k = "ecdsa" -> Sign(x.c, IF x.c = "p256" THEN "sha256" ELSE "sha384", Scal(x.c, x.k, i), D("r", 64))
    [] x.k = "ecdsarng" -> Sign(x.c, "sha512", Scal(x.c, x.k, 1), D(<<"r", i>>, 64))
    [] x.k = "ed" -> EdRun(Odd("ed", 32, i))
    [] x.k = "encaps" -> <<Ml!LdE(KemKey(x.i).ek), Ml!EncM(Odd("em", 32, i)), Rng(Odd("er", 32, i)), Ml!LdE(KemKey(x.i).ek), [op |-> "mlkem.encaps", h |-> "e"]>>
    [] x.k = "decaps" -> KemRun(Ml!SeedOf(20 + x.i), KemCt(x.i, i))
    [] x.k = "kemz" -> KemRun(KemZ(x.i, i), BFlip(KemCt(x.i, 1), 77))
    [] x.k = "rsa" -> RsaRun(RsaAlike(x.nm, i), x.pad, "sha256", D("salt", 64))
    [] x.k = "rsasalt" -> RsaRun(Rs!Keys[x.nm], "pss", "sha256", Odd("salt", 64, i))
    [] x.k = "hash" -> LET m == Odd(x, x.n, i) IN <<[op |-> "hash.new", api |-> "trait", alg |-> x.a, h |-> "a"], [op |-> "hash.update", h |-> "a", m |-> m, al |-> 5],
          [op |-> "hash.update", h |-> "a", m |-> m, al |-> 0], [op |-> "hash.finish", h |-> "a"], [op |-> "hash.oneshot", api |-> "trait", alg |-> x.a, m |-> m, al |-> 9]>>
    [] x.k = "sha3" -> LET m == Odd(x, x.n, i) IN <<[op |-> "sha3.new", alg |-> x.a, h |-> "a"], [op |-> "sha3.update", h |-> "a", m |-> m], [op |-> "sha3.update", h |-> "a", m |-> m],
          [op |-> "sha3.finish", h |-> "a"]>>
    [] x.k = "xof" -> <<[op |-> "xof.new", alg |-> x.a, h |-> "a", parts |-> <<Odd(x, x.n, i), Odd(<<x, 2>>, 34, i)>>], [op |-> "xof.read", h |-> "a", n |-> x.n], [op |-> "xof.read", h |-> "a", n |-> 200]>>
    [] x.k = "eq" -> LET v == D(<<x.a, "v">>, Hm!OutLen(x.a)) IN
          [j \in 1..2 |-> [op |-> "hash.equal", alg |-> x.a, v |-> v, other |-> BXor(v, HmMask(x.a, i)), trunc |-> IF j = 1 THEN 0 ELSE 32]]
    [] x.k = "hmac" -> HmRun(x.a, Odd(<<x, "k">>, x.n, i), Odd(x, 100, i), BRep(1, Hm!OutLen(x.a)))
    [] x.k = "hmtag" -> HmRun(x.a, D("hk", 32), D("hm", 20), HmMask(x.a, i))
    [] x.k = "prf" -> <<[op |-> "hmac.tls", alg |-> x.a, k |-> Odd(x, x.n, i), label |-> BAscii("master secret"), seed |-> D("seed", 64), n |-> 48]>>
    [] x.k = "aead" -> AeadRun(x.a, Odd(<<x, "k">>, AKl(x.a), i), Odd(x, x.n, i), D("aad", x.n % 40), "", 16)
    [] x.k = "aeadtag" -> AeadRun(x.a, D("key", AKl(x.a)), D("pt", 70), D("aad", 9), Masks16(i), 15)
    [] x.k = "rec" -> LET m == BCat(Odd(x, 60, i), "01") IN
          <<Enc(x.n, "e"), Dec(x.n, "d"), Seal("e", "5", 23, <<BHead(m, 20), BTail(m, 20)>>, 0, 61, "r"), OpenOf("d", "5", OTyp(x.n, 23), "r"), OpenOf("d", "5", OTyp(x.n, 23), "r") @@ [xortail |-> Masks16(IF i = 1 THEN 1 ELSE 4 * i)]>>
    [] x.k = "tick" -> <<[op |-> "tls.ticketer", h |-> "t"], [op |-> "tls.tseal", h |-> "t", m |-> Odd(x, 100, i), to |-> "x"],
          [op |-> "tls.topen", h |-> "t", t |-> "", from |-> "x", xortail |-> Masks16(IF i = 1 THEN 1 ELSE 4 * i)], [op |-> "tls.topen", h |-> "t", t |-> "", from |-> "x"]>>
Sc(x) ==
    LET rs == <<TLCEval(Runs(x, 1))>> \o [j \in 1..Len(x.is) |-> TLCEval(Runs(x, x.is[j]))]
    IN  IF \A j \in 2..Len(rs) : Lk!LowUpTo(rs[1], rs[j], Len(rs[1])) THEN Scenario(ToString(<<"lk", x>>), <<[op |-> "leak.run", runs |-> rs]>>)
        ELSE Assert(FALSE, <<"the public parts differ", x>>)
Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
