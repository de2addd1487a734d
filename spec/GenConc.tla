------------------------------- MODULE GenConc -------------------------------
(* C24: several threads using the same objects at once.                         *)
(*   first  the first thing a process does, done by all threads at once         *)
(*   share  threads use the same objects in different orders                    *)
(*   maxlen two threads use a new ticketer for the first time                   *)
(*   roll   threads use a ticketer at the moment its key is to be replaced      *)
(* The first two leave the shared objects as they are ("free": any order of the *)
(* threads' calls explains them); the others must be linearizable.              *)
EXTENDS TlsCases
R == INSTANCE DerTrees

Conc(lanes) == [op |-> "conc.run", lanes |-> lanes]
Free(lanes) == [op |-> "conc.run", lanes |-> lanes, free |-> TRUE]
Hsh == <<"sha256", "sha384", "sha512">>
Kinds == <<"rsa", "p256", "p384", "ed">>
Pkcs8(kd) == CASE kd = "rsa" -> R!RsaPkcs8Der(R!K0) [] kd = "ed" -> R!Enc(R!Trees["p8_ed1"]) [] OTHER -> A!EcPkcs8Der(kd, R!Sk(kd))
PubOf(kd) == CASE kd = "rsa" -> R!RsaPubDer(R!K0.n, R!K0.e) [] kd = "ed" -> R!EdPublic(R!EdSeed) [] OTHER -> R!Qc(kd)
AlgOf(kd) == CASE kd = "rsa" -> [pk |-> A!PkAlgRsa, sg |-> A!SigAlgPss("sha256")] [] kd = "ed" -> [pk |-> A!AlgEd, sg |-> A!AlgEd]
               [] kd = "p256" -> [pk |-> A!PkAlgEc(kd), sg |-> A!SigAlgEc("sha256")] [] OTHER -> [pk |-> A!PkAlgEc(kd), sg |-> A!SigAlgEc("sha384")]
SigOf(kd, m) ==
    CASE kd = "rsa" -> R!SigOf(R!K0, "pss", "sha256", m, D("salt", 32))
      [] kd = "ed" -> R!EdSign(R!EdSeed, R!EdPublic(R!EdSeed), m)
      [] OTHER -> LET h == IF kd = "p256" THEN "sha256" ELSE "sha384" IN A!SigDer(A!EcdsaSign(kd, h, R!Sk(kd), A!Hash(h, m), D(<<kd, h>>, 16)))
Msg(l) == D(<<"m", l>>, RndN(<<"ml", l>>, 200))
Nonce(a, l) == D(<<"n", l>>, IF a = "xchacha" THEN 24 ELSE 12)
EcK(c) == N2OS(NAdd(NMod(OS2N(D(c, 60)), NSub(A!Curve(c).n, "1")), "1"), A!Curve(c).len)
MlSeed == D("mlseed", 64)
Mk == A!MlKeyGen(MlSeed)
Bad(sig, l) == IF RndN(<<"bad", l>>, 2) = 0 THEN sig ELSE BFlip(sig, RndN(<<"bit", l>>, 400))

\* ways of using the library: what is made before (shared), and one use
Curves == {"p256", "p384"}
UAead(a, n) == <<"aead", a, n>>
NoUse == {<<"prf", "sha512", 0>>, <<"export", "ed", 0>>}
Uses == ({UAead("gcm", 16), UAead("gcm", 32), UAead("chacha", 32), UAead("xchacha", 32)}
   \cup ({"oneshot", "hclone", "hfork", "hmac", "prf", "ecsign", "ecver"} \X {"sha256", "sha384", "sha512"} \X {0})
   \cup ({"new"} \X {"gcm", "chacha", "hmac", "p256", "p384", "x", "ml", "ed", "rsa", "rsapub", "tver"} \X {0})
   \cup ({"sha3"} \X {"sha3_256", "sha3_512", "shake256"} \X {0})
   \cup ({"ecdh", "ecgen"} \X Curves \X {0}) \cup ({"xdh", "xgen", "ml", "mlgen", "edsign", "edver"} \X {""} \X {0})
   \cup ({"rsasign", "rsaver"} \X {"pkcs1", "pss"} \X {0}) \cup {<<"rsaload", "", 0>>}
   \cup ({"tsign", "tver", "tload", "export"} \X {"rsa", "p256", "p384", "ed"} \X {0})
   \cup ({"kx"} \X A!Groups \X {0}) \cup ({"rec"} \X SuiteNames \X {0}) \cup {<<"random", "", 0>>, <<"ticket", "", 0>>}) \ NoUse
UseSeq == SetToSeq(Uses)
EcOf(h) == IF h = "sha384" THEN "p384" ELSE "p256"
Nm(u) == ToString(u)                       \* name of the shared object
Setup(u) ==
    LET k == u[1]  a == u[2]  h == Nm(u) IN
    CASE k = "aead" -> <<[op |-> "aead.new", alg |-> a, h |-> h, k |-> D("ak", u[3])]>>
      [] k \in {"hclone", "hfork"} -> <<[op |-> "hash.new", api |-> "tls", alg |-> IF a = "sha512" THEN "sha384" ELSE a, h |-> h],
                                        [op |-> "hash.update", h |-> h, m |-> D("hm", 77), al |-> 0]>>
      [] k = "hmac" -> <<[op |-> "hmac.new", alg |-> a, h |-> h, k |-> D("hk", 40)], [op |-> "hmac.update", h |-> h, m |-> D("hm", 77), al |-> 0]>>
      [] k = "ecsign" -> <<[op |-> "ecdsa.load", curve |-> EcOf(a), h |-> h, fmt |-> "raw", der |-> EcK(EcOf(a))]>>
      [] k = "ecver" -> <<[op |-> "ecdsa.loadpub", curve |-> EcOf(a), h |-> h, pt |-> R!Qc(EcOf(a))]>>
      [] k = "ecdh" -> <<[op |-> "ecdh.load", curve |-> a, h |-> h, k |-> EcK(a)], [op |-> "ecdh.loadpub", curve |-> a, h |-> h \o "p", pt |-> R!Qc(a)]>>
      [] k = "xdh" -> <<[op |-> "x25519.load", h |-> h, k |-> D("xk", 32)], [op |-> "x25519.loadpub", h |-> h \o "p", u |-> D("xu", 32)]>>
      [] k = "ml" -> <<[op |-> "mlkem.keygen", h |-> h, seed |-> MlSeed]>>
      [] k = "edsign" -> <<[op |-> "ed25519.load", h |-> h, fmt |-> "seed", der |-> D("es", 32)]>>
      [] k = "edver" -> <<[op |-> "ed25519.loadpub", h |-> h, fmt |-> "raw", der |-> R!EdPublic(R!EdSeed)]>>
      [] k = "rsasign" -> <<R!LdPriv(h, R!K0)>>
      [] k = "rsaver" -> <<R!LdPub(h, R!K0.n, R!K0.e)>>
      [] k = "tsign" -> <<[op |-> "tls.keyload", h |-> h, fmt |-> "pkcs8", der |-> Pkcs8(a)]>>
      [] k = "export" -> IF a = "rsa" THEN <<R!LdPriv(h, R!K0)>>
                         ELSE <<[op |-> "ecdsa.load", curve |-> a, h |-> h, fmt |-> "raw", der |-> EcK(a)]>>
      [] OTHER -> << >>
\* objects of one's own, with a few different keys over all threads
New(a, l, w) ==
    LET v == RndN(<<l, "v">>, 3)  m == Msg(l)  sk(c) == N2OS(NInt(1000 + v), A!Curve(c).len)  q == A!EcPub("p256", NInt(2000 + v))
        rk == <<R!K0, R!Keys["c2048"], R!Keys["b2049"]>>[v + 1]  sg == R!SigOf(rk, "pss", "sha256", m, D(l, 32))
    IN
    CASE a \in {"gcm", "chacha"} -> <<[op |-> "aead.new", alg |-> a, h |-> w, k |-> D(<<"nk", v>>, 32)], [op |-> "aead.seal", h |-> w, nonce |-> Nonce(a, l), aad |-> m, pt |-> m]>>
      [] a = "hmac" -> <<[op |-> "hmac.new", alg |-> Hsh[v + 1], h |-> w, k |-> D(<<"nk", v>>, 150)], [op |-> "hmac.update", h |-> w, m |-> m, al |-> 0], [op |-> "hmac.finish", h |-> w]>>
      [] a \in {"p256", "p384"} -> <<[op |-> "ecdh.load", curve |-> a, h |-> w, k |-> sk(a)], [op |-> "ecdh.loadpub", curve |-> a, h |-> w \o "p", pt |-> A!EcPub(a, NInt(2000 + RndN(l, 3)))],
                                     [op |-> "ecdh.dh", h |-> w, peer |-> w \o "p", api |-> "static"],
                                     [op |-> "ecdsa.load", curve |-> a, h |-> w \o "s", fmt |-> "raw", der |-> sk(a)],
                                     [op |-> "ecdsa.sign", h |-> w \o "s", form |-> "asn1", hash |-> "sha256", m |-> <<m>>, n |-> 150]>>
      [] a = "x" -> <<[op |-> "x25519.load", h |-> w, k |-> D(<<"xk", v>>, 32)], [op |-> "x25519.loadpub", h |-> w \o "p", u |-> D(<<"xu", RndN(l, 3)>>, 32)],
                      [op |-> "x25519.dh", h |-> w, peer |-> w \o "p", api |-> "static"]>>
      [] a = "ml" -> <<[op |-> "mlkem.keygen", h |-> w, seed |-> D(<<"ms", v>>, 64)], [op |-> "mlkem.decaps", h |-> w, ct |-> A!MlEncaps(A!MlKeyGen(D(<<"ms", v>>, 64)).ek, D(l, 32)).ct, api |-> "ref"]>>
      [] a = "ed" -> <<[op |-> "ed25519.load", h |-> w, fmt |-> "seed", der |-> D(<<"es", v>>, 32)], [op |-> "ed25519.sign", h |-> w, m |-> m, al |-> 0]>>
      [] a = "rsa" -> <<R!LdPriv(w, rk), R!Sg(w, "pkcs1", "sha384", m, 1024)>>
      [] a = "rsapub" -> <<R!LdPub(w, rk.n, rk.e), R!V(w, "pss", "sha256", m, Bad(sg, l))>>
      [] OTHER -> <<[op |-> "tls.verify", pkalg |-> A!PkAlgEc("p256"), sigalg |-> A!SigAlgEc("sha256"), pk |-> q, m |-> m,
                     sig |-> Bad(A!SigDer(A!EcdsaSign("p256", "sha256", NInt(2000 + v), A!Hash("sha256", m), D(l, 16))), l)]>>
\* l: a label; w: a name no other thread uses
Use(u, l, w) ==
    LET k == u[1]  a == u[2]  h == Nm(u)  m == Msg(l) IN
    CASE k = "aead" -> IF RndN(<<"so", l>>, 3) = 0
                       THEN <<[op |-> "aead.open", h |-> h, nonce |-> Nonce(a, l), aad |-> Msg(<<l, 1>>), ct |-> m,
                               tag |-> A!AeadSeal(a, D("ak", u[3]), Nonce(a, l), Msg(<<l, 1>>), m).tag]>>
                       ELSE <<[op |-> "aead.seal", h |-> h, nonce |-> Nonce(a, l), aad |-> Msg(<<l, 1>>), pt |-> m]>>
      [] k = "new" -> New(a, l, w)
      [] k = "oneshot" -> <<[op |-> "hash.oneshot", api |-> "trait", alg |-> a, m |-> m]>>
      [] k \in {"hclone", "hmac"} -> LET p == IF k = "hmac" THEN "hmac" ELSE "hash" IN
                                     <<[op |-> p \o ".clone", h |-> h, to |-> w], [op |-> p \o ".update", h |-> w, m |-> m, al |-> 1], [op |-> p \o ".finish", h |-> w]>>
      [] k = "hfork" -> <<[op |-> "hash.forkfinish", h |-> h]>>
      [] k = "prf" -> <<[op |-> "hmac.tls", alg |-> a, k |-> D("pk", 48), label |-> BAscii("master secret"), seed |-> m, n |-> 100]>>
      [] k = "sha3" -> IF a = "shake256" THEN <<[op |-> "xof.new", alg |-> a, h |-> w, parts |-> <<m>>], [op |-> "xof.read", h |-> w, n |-> 300]>>
                       ELSE <<[op |-> "sha3.new", alg |-> a, h |-> w], [op |-> "sha3.update", h |-> w, m |-> m], [op |-> "sha3.finish", h |-> w]>>
      [] k = "ecsign" -> <<[op |-> "ecdsa.sign", h |-> h, form |-> "asn1", hash |-> a, m |-> <<m>>, n |-> 150]>>
      [] k = "ecver" -> LET c == EcOf(a) IN
                        <<[op |-> "ecdsa.verify", h |-> h, form |-> "asn1", hash |-> a, m |-> <<m>>,
                           sig |-> Bad(A!SigDer(A!EcdsaSign(c, a, R!Sk(c), A!Hash(a, m), D(l, 16))), l)]>>
      [] k = "ecdh" -> <<[op |-> "ecdh.dh", h |-> h, peer |-> h \o "p", api |-> "static"]>>
      [] k = "ecgen" -> <<[op |-> "ecdsa.generate", curve |-> a, h |-> w]>>
      [] k = "xdh" -> <<[op |-> "x25519.dh", h |-> h, peer |-> h \o "p", api |-> "static"]>>
      [] k = "xgen" -> <<[op |-> "x25519.sgenerate", h |-> w]>>
      [] k = "ml" -> IF RndN(<<"de", l>>, 2) = 0 THEN <<[op |-> "mlkem.loadek", h |-> w, ek |-> Mk.ek], [op |-> "mlkem.encaps", h |-> w]>>
                     ELSE <<[op |-> "mlkem.decaps", h |-> h, ct |-> A!MlEncaps(Mk.ek, D(l, 32)).ct, api |-> "ref"]>>
      [] k = "mlgen" -> <<[op |-> "mlkem.generate", h |-> w]>>
      [] k = "edsign" -> <<[op |-> "ed25519.sign", h |-> h, m |-> m, al |-> 0]>>
      [] k = "edver" -> <<[op |-> "ed25519.verify", h |-> h, m |-> m, sig |-> Bad(SigOf("ed", m), l), al |-> 0]>>
      [] k = "rsasign" -> <<R!Sg(h, a, Hsh[1 + RndN(l, 3)], m, 1024)>>
      [] k = "rsaver" -> LET g == Hsh[1 + RndN(l, 3)] IN <<R!V(h, a, g, m, Bad(R!SigOf(R!K0, a, g, m, D(l, A!HLen(g))), l))>>
      [] k = "rsaload" -> <<R!LdPriv(w, R!Keys["b2049"]), R!Sg(w, "pss", "sha256", m, 1024)>>
      [] k = "tsign" -> LET ids == IF a = "rsa" THEN <<2052>> ELSE IF a = "ed" THEN <<2055>> ELSE <<1283, 1027>> IN
                        <<[op |-> "tls.choose", h |-> h, to |-> w, schemes |-> ids], [op |-> "tls.sign", h |-> w, m |-> m]>>
      [] k = "tver" -> <<[op |-> "tls.verify", pkalg |-> AlgOf(a).pk, sigalg |-> AlgOf(a).sg, pk |-> PubOf(a), m |-> m, sig |-> Bad(SigOf(a, m), l)]>>
      [] k = "tload" -> <<[op |-> "tls.keyload", h |-> w, fmt |-> "pkcs8", der |-> Pkcs8(a)]>>
      [] k = "export" -> IF a = "rsa" THEN <<[op |-> "rsa.export", h |-> h, fmt |-> "pkcs1", n |-> 8000]>>
                         ELSE <<[op |-> "ecdsa.export", h |-> h, fmt |-> "pkcs8", n |-> 400]>>
      [] k = "kx" -> <<[op |-> "tls.kxstart", h |-> w, group |-> a, to |-> w \o "pub"], [op |-> "tls.kxserve", group |-> a, from |-> w \o "pub", to |-> w \o "srv"],
                       [op |-> "tls.kxcomplete", h |-> w, from |-> w \o "srv"]>>
      [] k = "rec" -> <<Enc(a, w \o "e"), Dec(a, w \o "d"), Seal(w \o "e", "0", 22, <<m>>, 0, BLen(m), w \o "r"), OpenOf(w \o "d", "0", OTyp(a, 22), w \o "r")>>
      [] k = "ticket" -> <<[op |-> "tls.ticketer", h |-> w], [op |-> "tls.tseal", h |-> w, m |-> BCat("01", m), to |-> w \o "t"], [op |-> "tls.topen", h |-> w, t |-> "", from |-> w \o "t"]>>
      [] OTHER -> <<[op |-> "rng.fill", n |-> 20, pre |-> "00"]>>

W(t, j) == "w" \o ToString(t) \o "_" \o ToString(j)
\* every thread does the same, from the start; reps times
First(u, x) == Free([t \in 1..4 |-> Setup(u) \o Concats([j \in 1..2 |-> Use(u, <<x, t, j>>, W(t, j))])])
\* every thread uses the same objects, n of them, in its own order
Some(x) == [j \in 1..6 |-> PickS(<<x, "u", j>>, UseSeq)]
Share(x, us, n) == Free([t \in 1..4 |-> Concats([j \in 1..n |-> Use(us[1 + RndN(<<x, t, j>>, Len(us))], <<x, t, j>>, W(t, j))])])

\* ---- ticketers
Clock(s) == [op |-> "tls.clock", at |-> 1000000 + s]
TNew(h) == [op |-> "tls.ticketer", h |-> h]
TSeal(h, m, to) == [op |-> "tls.tseal", h |-> h, m |-> m, to |-> to]
TOpen(h, from) == [op |-> "tls.topen", h |-> h, t |-> "", from |-> from]
Sy(n) == [sync |-> n]
Round(x, i) ==
    LET long == D(<<x, i>>, 40 + RndN(<<x, i, "l">>, 30))
        n == 2 + (i % 3)
    IN  <<TNew("a"), Conc([t \in 1..n |-> <<TSeal("a", IF t = 1 THEN long ELSE BHead(long, BLen(long) - 1 - RndN(<<x, i, t>>, 20)), "t" \o ToString(t)) @@ Sy(40 * (i % 9))>>])>>
        \o [t \in 1..n |-> TOpen("a", "t" \o ToString(t))]
Roll(x) ==
    LET n == 2 + (x.i % 3)
        lane(t) == LET z == RndN(<<x, t>>, 3)  s == Sy(100 * RndN(<<x, "j">>, 6)) IN
                   CASE z = 0 -> <<TSeal("a", D(<<x, t>>, 20), W(t, 1)) @@ s, TOpen("a", W(t, 1)), TOpen("a", "old")>>
                     [] z = 1 -> <<TOpen("a", "old") @@ s, TSeal("a", D(<<x, t>>, 30), W(t, 1)), TOpen("a", "older")>>
                     [] OTHER -> <<TOpen("a", "older") @@ s, TOpen("a", "old"), TSeal("a", D(<<x, t>>, 10), W(t, 1))>>
    IN  <<Clock(0), TNew("a"), TSeal("a", D(<<x, 0>>, 50), "older")>>
        \o (IF x.i % 2 = 0 THEN <<Clock(21605), TSeal("a", D(<<x, 1>>, 50), "old"), Clock(2 * 21610)>> ELSE <<TSeal("a", D(<<x, 1>>, 50), "old"), Clock(21610)>>)
        \o <<Conc([t \in 1..n |-> lane(t)]), TOpen("a", "old"), TOpen("a", "older")>> \o [t \in 1..n |-> TOpen("a", W(t, 1))]

Big == IF Thorough THEN 10 ELSE 1
Cases ==
   (IF Prop("part") = "first" THEN [k : {"first"}, u : Uses, i : 1..(4 * Big)] \cup [k : {"firstmix"}, i : 1..(30 * Big)]
    ELSE IF Prop("part") = "share" THEN [k : {"share"}, u : Uses, i : 1..(1 * Big)] \cup [k : {"mix"}, i : 1..(40 * Big)]
    ELSE [k : {"maxlen"}, i : 1..(64 * Big)] \cup [k : {"roll"}, i : 1..(100 * Big)])
Sc(x) ==
  LET id == ToString(<<x>>) IN
  CASE x.k = "first" -> Scenario(id, <<First(x.u, x)>>)
    [] x.k = "firstmix" -> Scenario(id, <<Free([t \in 1..6 |-> LET u == Some(x)[1 + (t % 6)] IN Setup(u) \o Use(u, <<x, t>>, W(t, 1))])>>)
    [] x.k = "share" -> Scenario(id, Setup(x.u) \o <<Share(x, <<x.u>>, 12)>> \o Use(x.u, x, "z"))
    [] x.k = "mix" -> LET us == Some(x) IN Scenario(id, Concats([j \in 1..6 |-> Setup(us[j])]) \o <<Share(x, us, 14)>>)
    [] x.k = "maxlen" -> Scenario(id, <<Clock(0)>> \o Concats([i \in 1..120 |-> Round(x, i)]))
    [] x.k = "roll" -> Scenario(id, Roll(x))

Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
