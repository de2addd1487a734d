-------------------------------- MODULE GenRng --------------------------------
(* C17: the random source fails at every possible call, or returns values that   *)
(* cannot be used; every operation that draws randomness is driven through it.   *)
EXTENDS EcCases, RsaCases, RsaGenPrimes, MlKem

EkRng == MlKeyGen(D("rngek", 64)).ek
RngAt(b, then, fill, at) == [op |-> "rng.set", bytes |-> b, then |-> then, fill |-> fill, failat |-> at]
\* the operations; each with what has to exist before it, and a use of its result afterwards
Ops == {"x", "xs", "e256", "e384", "es256", "es384", "k256", "k384", "ed", "mlg", "mle", "sf256", "sa256", "sf384", "sa384", "ps256", "ps384", "ps512", "fill"}
CurveOf(o) == IF o \in {"e384", "es384", "k384", "sf384", "sa384"} THEN "p384" ELSE "p256"
Pre(o) ==
  CASE o \in {"x", "xs"} -> <<[op |-> "x25519.loadpub", h |-> "q", u |-> BCat("09", BZero(31))]>>
    [] o \in {"e256", "e384", "es256", "es384"} -> <<[op |-> "ecdh.loadpub", curve |-> CurveOf(o), h |-> "q", pt |-> EcPub(CurveOf(o), "5")]>>
    [] o \in {"sf256", "sa256", "sf384", "sa384"} -> <<[op |-> "ecdsa.load", curve |-> CurveOf(o), h |-> "k", fmt |-> "raw", der |-> N2OS("b", L(CurveOf(o)))]>>
    [] o \in {"ps256", "ps384", "ps512"} -> <<LdPriv("k", Keys["b2048"])>>
    [] OTHER -> << >>
Do(o) ==
  CASE o = "x" -> <<[op |-> "x25519.generate", h |-> "k"]>>
    [] o = "xs" -> <<[op |-> "x25519.sgenerate", h |-> "k"]>>
    [] o \in {"e256", "e384"} -> <<[op |-> "ecdh.generate", curve |-> CurveOf(o), h |-> "k"]>>
    [] o \in {"es256", "es384"} -> <<[op |-> "ecdh.sgenerate", curve |-> CurveOf(o), h |-> "k"]>>
    [] o \in {"k256", "k384"} -> <<[op |-> "ecdsa.generate", curve |-> CurveOf(o), h |-> "k"]>>
    [] o = "ed" -> <<[op |-> "ed25519.generate", h |-> "k"]>>
    [] o = "mlg" -> <<[op |-> "mlkem.generate", h |-> "k"]>>
    [] o = "mle" -> <<[op |-> "mlkem.loadek", h |-> "k", ek |-> EkRng], [op |-> "mlkem.encaps", h |-> "k"]>>
    [] o \in {"sf256", "sf384"} -> <<[op |-> "ecdsa.sign", h |-> "k", form |-> "fixed", hash |-> "sha256", m |-> <<"aa">>, n |-> 110]>>
    [] o \in {"sa256", "sa384"} -> <<[op |-> "ecdsa.sign", h |-> "k", form |-> "asn1", hash |-> "sha384", m |-> <<"aa">>, n |-> 110]>>
    [] o \in {"ps256", "ps384", "ps512"} -> <<Sg("k", "pss", CASE o = "ps256" -> "sha256" [] o = "ps384" -> "sha384" [] OTHER -> "sha512", M0, 256)>>
    [] o = "fill" -> [j \in 1..3 |-> [op |-> "rng.fill", n |-> 16 * j, pre |-> "5a"]]
Use(o) ==
  CASE o = "x" -> <<[op |-> "x25519.dh", h |-> "k", peer |-> "q", api |-> "once", opt |-> TRUE]>>
    [] o = "xs" -> <<[op |-> "x25519.dh", h |-> "k", peer |-> "q", api |-> "static", opt |-> TRUE]>>
    [] o \in {"e256", "e384"} -> <<[op |-> "ecdh.dh", h |-> "k", peer |-> "q", api |-> "once", opt |-> TRUE]>>
    [] o \in {"es256", "es384"} -> <<[op |-> "ecdh.dh", h |-> "k", peer |-> "q", api |-> "static", opt |-> TRUE]>>
    [] o \in {"k256", "k384"} -> <<[op |-> "ecdsa.export", h |-> "k", fmt |-> "spki", n |-> 400, opt |-> TRUE]>>
    [] o = "ed" -> <<[op |-> "ed25519.sign", h |-> "k", m |-> "aa", opt |-> TRUE]>>
    [] o = "mlg" -> <<[op |-> "mlkem.decaps", h |-> "k", ct |-> BZero(1088), api |-> "once", opt |-> TRUE]>>
    [] OTHER -> << >>
\* the number of bytes drawn by the call
Need(o) == CASE o \in {"x", "xs", "ed", "mle", "ps256"} -> 32 [] o = "mlg" -> 64 [] o \in {"ps384"} -> 48 [] o = "ps512" -> 64
             [] o \in {"sf256", "sa256", "sf384", "sa384"} -> 16 [] o = "fill" -> 16 [] OTHER -> L(CurveOf(o))
EcGens == {"e256", "e384", "es256", "es384", "k256", "k384"}
\* candidates that are no private key
Gn(bits) == [op |-> "rsa.generate", h |-> "k", bits |-> bits]
D2(c) == NShr(NSub(NPow2(8 * L(c)), N(c)), 1)
BadCand(c, i) == N2OS(<<"0", N(c), NAdd(N(c), "1"), NSub(NPow2(8 * L(c)), "1"), NAdd(N(c), D2(c)), P(c)>>[1 + (i % 6)], L(c))
GoodCand(c, i) == N2OS(<<"1", NSub(N(c), "1"), "2", NSub(N(c), "2"), OS2N(D(<<"good", c, i>>, L(c) - 1))>>[1 + (i % 5)], L(c))
Tries == IF Thorough THEN 0..20 ELSE 0..7
MrHead(bits) == N2OS(GP["p" \o ToString(bits \div 2)], bits \div 16)
RsaUse(bits) == <<[op |-> "rsa.export", h |-> "k", fmt |-> "pkcs1", n |-> 8000, opt |-> TRUE]>>

Cases ==
   \* failure at a given call, and the source running dry after n bytes; then an ordinary source and the same again
   [k : {"failat"}, o : Ops, at : 1..3]
   \cup [k : {"dry"}, o : Ops, n : {0, 1, 15, 31, 32, 47, 63}]
   \cup [k : {"stuck"}, o : Ops, v : {0, 1, 127, 128, 255}]
   \cup [k : {"redraw"}, o : EcGens, n : Tries, i : 0..(IF Thorough THEN 29 ELSE 4)]
   \cup [k : {"redrawfail"}, o : EcGens, n : 1..12]
   \cup [k : {"good"}, o : EcGens, i : 0..9]
   \cup [k : {"never"}, o : EcGens, i : 0..5]
   \cup [k : {"rsa"}, bits : {2048}, at : 1..(IF Thorough THEN 120 ELSE 24)]
   \cup [k : {"rsaprime"}, bits : {2048, 3072}, at : 1..16]
   \cup [k : {"fill"}, n : {0, 1, 63, 64, 65, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025, 2047, 4096, 4097, 65535, 65536, 65537, 131073, 1048577}]
   \cup [k : {"rsadry"}, n : {0, 1, 127, 128, 129, 255, 256, 512}]
Sc(x) ==
  LET id == ToString(<<"rng", x>>) IN
  CASE x.k = "failat" -> Scenario(id, Pre(x.o) \o <<RngAt("", "prng", 0, x.at)>> \o Do(x.o) \o Use(x.o) \o Do(x.o) \o Use(x.o) \o <<RngAt("", "prng", 0, 0)>> \o Do(x.o) \o Use(x.o))
    [] x.k = "dry" -> Scenario(id, Pre(x.o) \o <<RngAt(BRep(65, Min(x.n, Need(x.o) - 1)), "fail", 0, 0)>> \o Do(x.o) \o Use(x.o)
              \o <<RngAt(D(<<x>>, 63), "fail", 0, 0)>> \o Do(x.o) \o Use(x.o) \o <<RngAt("", "prng", 0, 0)>> \o Do(x.o) \o Use(x.o))
    [] x.k = "stuck" -> Scenario(id, Pre(x.o) \o <<RngAt("", "fill", x.v, 0)>> \o Do(x.o) \o Use(x.o) \o <<RngAt("", "prng", 0, 0)>> \o Do(x.o) \o Use(x.o))
    [] x.k = "fill" -> LET F(pre) == [op |-> "rng.fill", n |-> x.n, pre |-> pre] IN
        Scenario(id, <<RngAt("", "prng", 0, 0), F("5a"), F("ff"), RngAt(D(<<x>>, x.n), "fail", 0, 0), F("00"), F("00"), RngAt(D(<<x>>, x.n \div 2), "fail", 0, 0), F("00")>>)
    [] x.k = "redraw" -> LET c == CurveOf(x.o) IN
        Scenario(id, Pre(x.o) \o <<RngAt(BCatSeq([j \in 1..x.n |-> BadCand(c, x.i + j)] \o <<GoodCand(c, x.i)>>), "fail", 0, 0)>> \o Do(x.o) \o Use(x.o))
    [] x.k = "redrawfail" -> LET c == CurveOf(x.o) IN
        Scenario(id, Pre(x.o) \o <<RngAt(BCatSeq([j \in 1..x.n |-> BadCand(c, j)]), "fail", 0, 0)>> \o Do(x.o) \o Use(x.o) \o Do(x.o) \o Use(x.o))
    [] x.k = "good" -> LET c == CurveOf(x.o) IN
        Scenario(id, Pre(x.o) \o <<RngAt(GoodCand(c, x.i), "prng", 0, 0)>> \o Do(x.o) \o Use(x.o) \o Do(x.o) \o Use(x.o))
    [] x.k = "never" -> LET c == CurveOf(x.o) IN
        Scenario(id, Pre(x.o) \o <<RngAt(BCatSeq([j \in 1..400 |-> BadCand(c, x.i)]), "fill", 0, 0)>> \o Do(x.o) \o Use(x.o) \o <<RngAt("", "prng", 0, 0)>> \o Do(x.o) \o Use(x.o))
    [] x.k = "rsa" -> Scenario(id, <<RngAt("", "prng", 0, x.at), Gn(x.bits)>> \o RsaUse(x.bits))
    [] x.k = "rsaprime" -> \* the candidates are primes, so that the calls are known: p, its witnesses, q, its witnesses
        Scenario(id, <<RngAt(BCatSeq(<<MrHead(x.bits)>> \o [j \in 1..(x.at - 1) |-> BSet(D(<<x, j>>, x.bits \div 16), 0, 90)]), "fail", 0, 0), Gn(x.bits)>> \o RsaUse(x.bits))
    [] x.k = "rsadry" -> Scenario(id, <<RngAt(BRep(255, x.n), "fail", 0, 0), Gn(2048)>> \o RsaUse(2048))
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
