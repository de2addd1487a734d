-------------------------------- MODULE GenWipe --------------------------------
(* C18: every kind of object holding a secret, made in every way, used for a     *)
(* while, then dropped with its memory watched.  Where `live` is set the memory  *)
(* before the drop is recorded too: the binding self-test puts it in place of    *)
(* what was left, and the specification has to object.                           *)
EXTENDS TlsCases
R == INSTANCE DerTrees

Big == IF Thorough THEN 8 ELSE 1
Wipe(h, live) == [op |-> "wipe.drop", h |-> h, live |-> live]
W == [watch |-> TRUE]
Clock(s) == [op |-> "tls.clock", at |-> 1000000 + s]
HNew(a, h, k) == [op |-> "hmac.new", alg |-> a, h |-> h, k |-> k]
HUp(h, m) == [op |-> "hmac.update", h |-> h, m |-> m]
Algs == <<"sha256", "sha384", "sha512">>
Some(l, n) == RndN(<<Seed, l>>, n)
Bytes(l, top) == D(<<l, "b">>, RndN(<<Seed, l, "len">>, top))
ANew(a, k) == [op |-> "aead.new", alg |-> a, h |-> "k", k |-> k]
ASeal(a, l) == [op |-> "aead.seal", h |-> "k", nonce |-> D(<<l, "n">>, IF a = "xchacha" THEN 24 ELSE 12), aad |-> Bytes(<<l, "aad">>, 40), pt |-> Bytes(<<l, "pt">>, 600)]
AOpen(a, l) == [op |-> "aead.open", h |-> "k", nonce |-> D(<<l, "n">>, IF a = "xchacha" THEN 24 ELSE 12), aad |-> Bytes(<<l, "aad">>, 40), ct |-> Bytes(<<l, "pt">>, 600), tag |-> D(<<l, "t">>, 16)]
AUse(a, l) == IF Some(<<l, "k">>, 3) = 0 THEN AOpen(a, l) ELSE ASeal(a, l)
EcLoad(c, k) == [op |-> "ecdh.load", curve |-> c, h |-> "k", k |-> k]
Peer(c) == [op |-> "ecdh.loadpub", curve |-> c, h |-> "p", pt |-> A!EcPub(c, "7")]
EcDh(c, api) == [op |-> "ecdh.dh", h |-> "k", peer |-> "p", api |-> api] @@ W
EcKey(c, l) == N2OS(NAdd(NMod(OS2N(D(l, 60)), NSub(A!Curve(c).n, "1")), "1"), A!Curve(c).len)
EcSign(hash, l) == [op |-> "ecdsa.sign", h |-> "k", form |-> "asn1", hash |-> hash, m |-> <<Bytes(l, 90)>>, n |-> 150]
XPeer == [op |-> "x25519.loadpub", h |-> "p", u |-> A!X25519Base(BRep(77, 32))]
XDh(api) == [op |-> "x25519.dh", h |-> "k", peer |-> "p", api |-> api] @@ W
EdSign(l) == [op |-> "ed25519.sign", h |-> "k", m |-> Bytes(l, 300), al |-> 3]
Ct(l, s) == A!MlEncaps(A!MlKeyGen(s).ek, D(<<l, "m">>, 32)).ct
Deca(c, api) == [op |-> "mlkem.decaps", h |-> "k", ct |-> c, api |-> api] @@ W
LdE(ek) == [op |-> "mlkem.loadek", h |-> "e", ek |-> ek]
RsaUse(l, j) == R!Sg("k", IF Some(<<l, j>>, 2) = 0 THEN "pkcs1" ELSE "pss", Algs[1 + (j % 3)], D(<<l, j>>, 20), 1024)
Groups == {"X25519", "secp256r1", "secp384r1", "X25519MLKEM768"}
Start(h, g) == [op |-> "tls.kxstart", h |-> h, group |-> g, to |-> h \o "pub"]
Serve(g) == [op |-> "tls.kxserve", group |-> g, from |-> "kpub", to |-> "srv"] @@ W
Compl == [op |-> "tls.kxcomplete", h |-> "k", from |-> "srv"] @@ W
TKeyDer(kd, l) == CASE kd = "rsa" -> <<"pkcs8", R!RsaPkcs8Der(R!K0)>> [] kd = "rsa1" -> <<"pkcs1", R!RsaPrivDer(R!Keys["b3072"])>>
                 [] kd = "ed" -> <<"pkcs8", R!Enc(R!Trees["p8_ed1"])>> [] kd = "sec1" -> <<"sec1", A!EcSec1Der("p384", OS2N(EcKey("p384", l)), TRUE)>>
                 [] OTHER -> <<"pkcs8", A!EcPkcs8Der(kd, OS2N(EcKey(kd, l)))>>
TKinds == {"rsa", "rsa1", "ed", "p256", "p384", "sec1"}
All9 == <<1025, 1281, 1537, 1027, 2055, 1283, 2052, 2053, 2054>>
TSeal(h, m, to) == [op |-> "tls.tseal", h |-> h, m |-> m, to |-> to] @@ W
TOpen(h, from) == [op |-> "tls.topen", h |-> h, t |-> "", from |-> from] @@ W
Times(n, F(_)) == Concats([j \in 1..n |-> F(j)])

Cases ==
   [k : {"hmac"}, a : 1..3, kl : {16, 20, 32, 48, 63, 64, 65, 100, 127, 128, 129, 200}, v : 0..(3 * Big)]
   \cup [k : {"aead"}, a : {"gcm", "chacha", "xchacha"}, kl : {16, 32}, u : 0..(6 * Big)]
   \cup [k : {"x"}, how : {"load", "generate", "sgenerate"}, u : 0..(2 * Big)]
   \cup [k : {"ec"}, c : {"p256", "p384"}, how : {"load", "generate", "sgenerate"}, u : 0..(2 * Big)]
   \cup [k : {"ecdsa"}, c : {"p256", "p384"}, how : {"raw", "sec1", "pkcs8", "generate"}, u : 0..(1 * Big)]
   \cup [k : {"ed"}, how : {"pkcs8", "generate"}, u : 0..(2 * Big)]
   \cup [k : {"rsa"}, nm : {"b2048", "x2048", "x2047", "b2049", "b2112", "b3072", "b4096", "b6144", "b8192"}, u : 0..1]
   \cup [k : {"rsap"}, nm : {"b2048", "d2048", "b2047"}, u : 0..1]
   \cup [k : {"rsagen"}, i : 1..(2 * Big)]
   \cup [k : {"ml"}, how : {"seed", "generate"}, u : 0..(2 * Big)]
   \cup [k : {"enc"}, i : 1..(6 * Big)]
   \cup [k : {"tls"}, s : SuiteNames, d : {"enc", "dec"}, u : 0..(2 * Big)]
   \cup [k : {"tick"}, u : 0..(6 * Big)]
   \cup [k : {"kx"}, g : Groups, w : 0..4, u : 0..(1 * Big)]
   \cup [k : {"key"}, kd : TKinds, w : 0..3]
Sc(x) ==
  LET id == ToString(<<x>>)
      K(n) == D(<<x, "key">>, n)
  IN
  CASE x.k = "hmac" ->
        Scenario(id, <<HNew(Algs[x.a], "k", K(x.kl))>> \o Times(x.v, LAMBDA j : <<HUp("k", Bytes(<<x, j>>, 260))>>)
                 \o (IF x.v = 2 THEN <<[op |-> "hmac.clone", h |-> "k", to |-> "c"], HUp("c", "616263"), Wipe("c", TRUE)>> ELSE << >>) \o <<Wipe("k", TRUE)>>)
    [] x.k = "aead" -> LET kl == IF x.a = "gcm" THEN x.kl ELSE 32 IN
        Scenario(id, <<ANew(x.a, K(kl))>> \o [j \in 1..x.u |-> AUse(x.a, <<x, j>>)] \o <<Wipe("k", TRUE)>>)
    [] x.k = "x" -> Scenario(id, <<IF x.how = "load" THEN [op |-> "x25519.load", h |-> "k", k |-> K(32)] ELSE [op |-> "x25519." \o x.how, h |-> "k"], XPeer>>
                 \o (IF x.how = "generate" THEN << >> ELSE Times(x.u, LAMBDA j : <<XDh("static")>>)) \o <<Wipe("k", TRUE)>>
                 \o (IF x.how = "generate" THEN <<[op |-> "x25519.generate", h |-> "k"], XDh("once")>> ELSE << >>))
    [] x.k = "ec" -> Scenario(id, <<IF x.how = "load" THEN EcLoad(x.c, EcKey(x.c, x)) ELSE [op |-> "ecdh." \o x.how, curve |-> x.c, h |-> "k"], Peer(x.c)>>
                 \o (IF x.how = "generate" THEN << >> ELSE Times(x.u, LAMBDA j : <<EcDh(x.c, "static")>>)) \o <<Wipe("k", TRUE)>>
                 \o (IF x.how = "generate" THEN <<[op |-> "ecdh.generate", curve |-> x.c, h |-> "k"], EcDh(x.c, "once")>> ELSE << >>))
    [] x.k = "ecdsa" -> LET d == EcKey(x.c, x) IN
        Scenario(id, <<IF x.how = "generate" THEN [op |-> "ecdsa.generate", curve |-> x.c, h |-> "k"]
                       ELSE [op |-> "ecdsa.load", curve |-> x.c, h |-> "k", fmt |-> x.how,
                             der |-> CASE x.how = "raw" -> d [] x.how = "sec1" -> A!EcSec1Der(x.c, OS2N(d), TRUE) [] OTHER -> A!EcPkcs8Der(x.c, OS2N(d))]>>
                 \o [j \in 1..x.u |-> EcSign(Algs[1 + (j % 3)], <<x, j>>)]
                 \o <<[op |-> "ecdsa.export", h |-> "k", fmt |-> "pkcs8", n |-> 300], Wipe("k", TRUE)>>)
    [] x.k = "ed" -> Scenario(id, <<IF x.how = "generate" THEN [op |-> "ed25519.generate", h |-> "k"]
                       ELSE [op |-> "ed25519.load", h |-> "k", fmt |-> "pkcs8", der |-> A!EdPkcs8Der(K(32))]>>
                 \o [j \in 1..x.u |-> EdSign(<<x, j>>)] \o <<Wipe("k", TRUE)>>)
    [] x.k \in {"rsa", "rsap"} -> LET k == R!Keys[x.nm] IN
        Scenario(id, <<[op |-> "rsa.load", h |-> "k", fmt |-> IF x.k = "rsa" THEN "pkcs1" ELSE "pkcs8", der |-> IF x.k = "rsa" THEN R!RsaPrivDer(k) ELSE R!RsaPkcs8Der(k)]>>
                 \o [j \in 1..(3 * x.u) |-> RsaUse(x, j)] \o <<R!Ex("k", "pkcs1", 6000), Wipe("k", TRUE)>>)
    [] x.k = "rsagen" -> Scenario(id, <<[op |-> "rsa.generate", h |-> "k", bits |-> 2048], R!Ex("k", "pkcs1", 6000), Wipe("k", TRUE)>>)
    [] x.k = "ml" -> LET s == K(64) IN
        Scenario(id, <<IF x.how = "seed" THEN [op |-> "mlkem.keygen", h |-> "k", seed |-> s] ELSE [op |-> "mlkem.generate", h |-> "k"]>>
                 \o (IF x.how = "seed" THEN Times(x.u, LAMBDA j : <<Deca(Ct(<<x, j>>, s), "ref"), Deca(BFlip(Ct(<<x, j>>, s), 99), "ref")>>) ELSE << >>)
                 \o <<Wipe("k", TRUE)>>
                 \o (IF x.how = "seed" THEN <<[op |-> "mlkem.keygen", h |-> "k", seed |-> s], Deca(Ct(<<x>>, s), "once")>> ELSE << >>))
    [] x.k = "enc" -> LET ek == A!MlKeyGen(K(64)).ek IN
        Scenario(id, <<LdE(ek), [op |-> "mlkem.encapsm", h |-> "e", m |-> D(<<x, "m">>, 32)] @@ W, LdE(ek), [op |-> "mlkem.encaps", h |-> "e"] @@ W>>)
    [] x.k = "tls" ->
        Scenario(id, <<Cipher(x.s, "k", x.d, K(S(x.s).klen), IvEx(x.s))>>
                 \o [j \in 1..x.u |-> IF x.d = "enc" THEN Seal("k", NInt(j), 23, <<"7b", Bytes(<<x, j>>, 400)>>, 0, BLen(Bytes(<<x, j>>, 400)) + 1, "r") ELSE OpenRaw("k", NInt(j), 23, Bytes(<<x, j>>, 400))]
                 \o <<Wipe("k", TRUE)>>)
    [] x.k = "tick" ->
        Scenario(id, <<Clock(0), [op |-> "tls.ticketer", h |-> "a"]>>
                 \o Times(x.u, LAMBDA j : <<TSeal("a", D(<<x, j>>, 40), "t"), Clock(j * 21700 - 10), TSeal("a", D(<<x, j>>, 41), "t"), Clock(j * 21700), TOpen("a", "t")>>)
                 \o <<TSeal("a", D(x, 40), "t"), Wipe("a", FALSE)>>)
    [] x.k = "kx" -> LET inl == x.g # "X25519MLKEM768" IN
        Scenario(id, <<Start("k", x.g)>> \o
           (CASE x.w = 0 -> <<Wipe("k", inl)>>
              [] x.w = 1 -> <<Serve(x.g), Compl>>
              [] x.w = 2 -> <<[op |-> "tls.kxcomplete", h |-> "k", peer |-> Bytes(x, 31)] @@ W>>
              [] x.w = 3 -> <<[op |-> "tls.kxcomplete", h |-> "k", peer |-> D(x, 1121)] @@ W>>
              [] x.w = 4 -> <<Serve(x.g), Serve(x.g), Wipe("k", inl)>>))
    [] x.k = "key" -> LET kd == TKeyDer(x.kd, x) IN
        Scenario(id, <<[op |-> "tls.keyload", h |-> "k", fmt |-> kd[1], der |-> kd[2]]>>
           \o (IF x.w > 0 THEN <<[op |-> "tls.choose", h |-> "k", to |-> "s", schemes |-> All9], [op |-> "tls.sign", h |-> "s", m |-> D(x, 50), to |-> "sig"]>> ELSE << >>)
           \o (CASE x.w = 0 -> <<Wipe("k", FALSE)>> [] x.w = 1 -> <<Wipe("s", FALSE), Wipe("k", FALSE)>> [] OTHER -> <<Wipe("k", FALSE), Wipe("s", FALSE)>>))
Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
