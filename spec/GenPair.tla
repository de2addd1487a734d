-------------------------------- MODULE GenPair --------------------------------
(* C26: connections with every suite, group, kind of certificate and client       *)
(* authentication, full, retried and resumed, with data and key updates; ones     *)
(* that must fail; and the key derivation of each suite by itself.                *)
EXTENDS TlsCases

Certs == {"p256", "p384", "ed", "rsa", "rsa3072", "rsa4096"}
Kx == {"X25519MLKEM768", "X25519", "secp256r1", "secp384r1"}
Kx12 == Kx \ {"X25519MLKEM768"}
S12 == {n \in SuiteNames : Is12(n)}
S13 == SuiteNames \ S12
\* certificates that TLS 1.2 suites can be used with
Fits(n, c) == IF S(n).sig = "rsa" THEN c \in {"rsa", "rsa3072", "rsa4096"} ELSE c \in {"p256", "p384"}
Pair(h, cert, want) == [op |-> "tls.pair", h |-> h, cert |-> cert, want |-> want]
Like(h, from, want) == [op |-> "tls.pair", h |-> h, like |-> from, want |-> want]
Data(h, who, m) == [op |-> "tls.pairdata", h |-> h, who |-> who, m |-> m]
Rekey(h, who, m) == Data(h, who, m) @@ [rekey |-> TRUE]
Msg(x, n) == D(<<x, n>>, n)
Talk(h, x) == <<Data(h, "c", Msg(x, 5)), Data(h, "s", Msg(x, 300)), Data(h, "c", Msg(x, 16385)), Data(h, "s", Msg(x, 1))>>
With(n, g) == [csuites |-> <<n>>, cgroups |-> <<g>>]
Ver(n) == [cver |-> IF Is12(n) THEN 12 ELSE 13]
Lens == {0, 1, 31, 32, 33, 48, 63, 64, 65, 100, 255 * 32, (255 * 32) + 1, 255 * 48, (255 * 48) + 1}
Kdf(n, how, secret, salt, parts, l) == [op |-> "tls.kdf", suite |-> n, how |-> how, secret |-> secret, salt |-> salt, parts |-> parts, n |-> l]
Hl(n) == A!HLen(S(n).hash)
Parts(x, n) == [i \in 1..n |-> D(<<x, i>>, <<0, 1, 5, 16, 40, 64, 130>>[1 + RndN(<<x, i, "l">>, 7)])]
Orders == {<<a, b>> \in Kx \X Kx : a # b}
\* what the client sends shares for when it prefers a group
Sent(a) == IF a = "X25519MLKEM768" THEN {a, "X25519"} ELSE {a}
\* places in a flight where a modified bit is noticed (not in the header of a record)
Spots == <<<<0, 90>>, <<0, 150>>, <<0, 330>>, <<1, 90>>, <<1, 150>>, <<1, 340>>, <<1, -1>>, <<1, -77>>, <<1, -128>>, <<2, -1>>, <<2, -40>>, <<2, -128>>>>
NSpot == Len(Spots)

\* contexts that keys are exported with, and how many bytes
Ctx == <<[xnone |-> TRUE, xlen |-> 32], [xctx |-> "", xlen |-> 1], [xctx |-> D("x1", 130), xlen |-> 100], [xctx |-> D("x2", 700), xlen |-> 48], [xctx |-> D("x3", 65535), xlen |-> 8160]>>

Cases ==
   [k : {"s13"}, n : S13, g : Kx, c : {"p256"}]
   \cup {x \in [k : {"s12"}, n : S12, g : Kx12, c : {"p256", "p384", "rsa"}] : Fits(x.n, x.c) /\ (Thorough \/ x.g = "X25519" \/ x.c # "p384")}
   \cup [k : {"cert"}, c : Certs, v : {13}] \cup [k : {"cert"}, c : Certs \ {"ed"}, v : {12}]
   \cup [k : {"auth"}, c : Certs, v : {13}] \cup [k : {"auth"}, c : Certs \ {"ed"}, v : {12}]
   \cup [k : {"retry"}, o : Orders, c : {"p256"}]
   \cup [k : {"resume"}, n : SuiteNames, t : {"tickets", "store"}]
   \cup [k : {"retryresume"}, t : {"tickets", "store"}]
   \cup [k : {"ten"}, v : {12, 13}]
   \cup [k : {"export"}, n : SuiteNames, i : 1..Len(Ctx)]
   \cup [k : {"rekey"}, n : S13, w : 1..(IF Thorough THEN 10 ELSE 3)]
   \cup [k : {"default"}, c : Certs]
   \cup [k : {"badcert"}, c : Certs, i : 0..1, b : {0, 1, 30}]
   \cup [k : {"badclient"}, c : Certs, i : 0..1, b : {0, 7}]
   \cup [k : {"root"}, c : {"p256", "rsa"}]
   \cup [k : {"none"}, i : 1..5]
   \cup [k : {"flip"}, v : {12, 13}, i : 1..NSpot]
   \cup [k : {"rng"}, v : {12, 13}, at : 1..(IF Thorough THEN 24 ELSE 12), r : {0, 1}]
   \cup [k : {"flipdata"}, n : SuiteNames, b : {40, 130, -1, -128}]
   \cup [k : {"prf"}, n : S12, w : 1..10, sl : {64, 513, 66000}]
   \cup [k : {"hkdf"}, n : S13, how : {"zero", "secret", "okm"}, l : Lens]
   \cup [k : {"info"}, n : S13, p : 0..12]
   \cup [k : {"salt"}, n : S13, l : {0, 1, 32, 48, 64, 65, 128, 129, 200}]
   \cup [k : {"sign"}, n : S13, l : {0, 1, 32, 64, 127, 128, 300}]
Sc(x) ==
  LET id == ToString(<<"pr", x>>)
      Sim(s) == Scenario(id, s)
  IN
  CASE x.k = "s13" -> Sim(<<Pair("p", x.c, "full") @@ With(x.n, x.g) @@ Ver(x.n)>> \o Talk("p", x))
    [] x.k = "s12" -> Sim(<<Pair("p", x.c, "full") @@ With(x.n, x.g) @@ Ver(x.n)>> \o Talk("p", x))
    [] x.k = "cert" -> Sim(<<Pair("p", x.c, "full") @@ [cver |-> x.v], Data("p", "c", Msg(x, 50))>>)
    [] x.k = "auth" -> Sim(<<Pair("p", IF x.c = "rsa" THEN "p384" ELSE "rsa", "full") @@ [sver |-> x.v, auth |-> x.c], Data("p", "c", Msg(x, 50))>>)
    [] x.k = "retry" -> Sim(<<Pair("p", x.c, IF x.o[2] \in Sent(x.o[1]) THEN "full" ELSE "retry") @@ [cver |-> 13, cgroups |-> x.o, sgroups |-> <<x.o[2]>>], Data("p", "s", Msg(x, 50))>>)
    [] x.k = "resume" ->
         LET cert == IF Is12(x.n) /\ S(x.n).sig = "rsa" THEN "rsa" ELSE "p256" IN
         Sim(<<Pair("p", cert, "full") @@ With(x.n, "X25519") @@ Ver(x.n) @@ [tickets |-> x.t], Data("p", "s", Msg(x, 20)),
               Like("q", "p", "resume"), Data("q", "c", Msg(x, 20)), Data("q", "s", Msg(x, 17000)), Like("r", "q", "resume"), Data("r", "s", Msg(x, 20)), Data("p", "c", Msg(x, 33))>>)
    [] x.k = "retryresume" -> Sim(<<Pair("p", "ed", "retry") @@ [cgroups |-> <<"X25519", "secp384r1">>, sgroups |-> <<"secp384r1">>, tickets |-> x.t], Data("p", "s", Msg(x, 20)),
               Like("q", "p", "resume"), Data("q", "c", Msg(x, 20))>>)
    [] x.k = "ten" -> Sim(<<Pair("p", "p256", "full") @@ [cver |-> x.v, tickets |-> "tickets"]>>
               \o [i \in 1..10 |-> Data("p", IF i % 3 = 0 THEN "s" ELSE "c", Msg(<<x, i>>, 1 + RndN(<<x, i>>, 40000)))])
    [] x.k = "export" -> Sim(<<Pair("p", IF Is12(x.n) /\ S(x.n).sig = "rsa" THEN "rsa" ELSE "p256", "full") @@ With(x.n, "X25519") @@ Ver(x.n) @@ Ctx[x.i]>>)
    [] x.k = "rekey" -> Sim(<<Pair("p", "p256", "full") @@ With(x.n, "X25519")>>
               \o [i \in 1..9 |-> LET who == IF RndN(<<x, i, "w">>, 2) = 0 THEN "c" ELSE "s"  m == Msg(<<x, i>>, 1 + RndN(<<x, i>>, 400))
                                  IN  IF RndN(<<x, i, "r">>, 2) = 0 THEN Rekey("p", who, m) ELSE Data("p", who, m)])
    [] x.k = "default" -> Sim(<<Pair("p", x.c, "full") @@ [auth |-> x.c, tickets |-> "tickets"], Data("p", "c", Msg(x, 9)), Data("p", "s", Msg(x, 9))>>)
    [] x.k = "badcert" -> Sim(<<Pair("p", x.c, "fail") @@ [spoil |-> <<x.i, x.b>>]>>)
    [] x.k = "badclient" -> Sim(<<Pair("p", "p256", "fail") @@ [auth |-> x.c, cspoil |-> <<x.i, x.b>>]>>)
    [] x.k = "root" -> Sim(<<Pair("p", x.c, "fail") @@ [root |-> IF x.c = "p256" THEN "rsa" ELSE "p256"]>>)
    [] x.k = "none" -> Sim(<<Pair("p", "p256", "fail") @@
          (CASE x.i = 1 -> [csuites |-> <<"TLS13_AES_128_GCM_SHA256">>, ssuites |-> <<"TLS13_AES_256_GCM_SHA384">>]
             [] x.i = 2 -> [cgroups |-> <<"X25519">>, sgroups |-> <<"secp384r1">>]
             [] x.i = 3 -> [cver |-> 12, sver |-> 13]
             [] x.i = 4 -> [cver |-> 12, csuites |-> <<"TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256">>]
             [] OTHER -> [cver |-> 12, cgroups |-> <<"secp256r1">>, sgroups |-> <<"X25519">>])>>)
    [] x.k = "flip" -> Sim(<<Pair("p", "p256", "fail") @@ [cver |-> x.v, cgroups |-> <<"X25519">>, flip |-> Spots[x.i]]>>)
    [] x.k = "rng" -> \* the random source fails at some draw
         Scenario(id, <<[op |-> "rng.set", bytes |-> "", then |-> "prng", fill |-> 0, failat |-> x.at],
               Pair("p", "p256", "any") @@ [cver |-> x.v, tickets |-> "tickets"] @@ (IF x.r = 1 THEN [cgroups |-> <<"X25519", "secp384r1">>, sgroups |-> <<"secp384r1">>] ELSE << >>)>>)
    [] x.k = "flipdata" ->
         Sim(<<Pair("p", IF Is12(x.n) /\ S(x.n).sig = "rsa" THEN "rsa" ELSE "p256", "full") @@ With(x.n, "X25519") @@ Ver(x.n), Data("p", "c", Msg(x, 5)),
               Data("p", "c", Msg(x, 40)) @@ [flip |-> <<0, x.b>>]>>)
    [] x.k = "prf" -> Sim(<<Kdf(x.n, "prf", D(<<x, "s">>, <<1, 16, 32, 48, 66, 97, 128, 129, 200, 0>>[x.w]), "", <<BAscii("key expansion"), D(<<x, "seed">>, x.sl)>>, <<0, 1, 12, 31, 32, 33, 48, 49, 104, 300>>[x.w])>>)
    [] x.k = "hkdf" -> Sim(<<Kdf(x.n, x.how, D(<<x, "s">>, Hl(x.n)), D(<<x, "salt">>, Hl(x.n)), <<D(<<x, "i">>, 20)>>, x.l),
                             Kdf(x.n, x.how, D(<<x, "s">>, Hl(x.n)), "", << >>, x.l) @@ [nosalt |-> TRUE]>>)
    [] x.k = "info" -> Sim([i \in 1..4 |-> Kdf(x.n, "okm", D(<<x, i, "s">>, Hl(x.n)), "", Parts(<<x, i>>, x.p), 100)])
    [] x.k = "salt" -> Sim(<<Kdf(x.n, "secret", D(<<x, "s">>, x.l), D(<<x, "salt">>, x.l), <<"00">>, 64), Kdf(x.n, "secret", D(<<x, "s">>, 200 - x.l), D(<<x, "salt">>, x.l), << >>, 64),
                             Kdf(x.n, "zero", "", D(<<x, "salt">>, x.l), << >>, 64)>>)
    [] x.k = "sign" -> Sim([i \in 1..4 |-> Kdf(x.n, "sign", D(<<x, i>>, Hl(x.n)), "", IF i = 1 THEN <<D(x, x.l)>> ELSE Parts(<<x, i>>, i), 0)])
Init == GenInit(Cases) /\ objs = << >>
Next == GenNext(Sc) /\ UNCHANGED objs
=============================================================================
