------------------------------- MODULE GenHmac -------------------------------
(* C03: HMAC keys of every length, chunkings, candidate tags; the TLS 1.2 PRF. *)
EXTENDS Gen, Hmac

Algs == {"sha256", "sha384", "sha512"}
New(a, h, k) == [op |-> "hmac.new", alg |-> a, h |-> h, k |-> k]
Upd(h, m, al) == [op |-> "hmac.update", h |-> h, m |-> m, al |-> al]
Fin(h) == [op |-> "hmac.finish", h |-> h]
Ver(h, t) == [op |-> "hmac.verify", h |-> h, tag |-> t]
Clone(h, to) == [op |-> "hmac.clone", h |-> h, to |-> to]

Keys == [k : {"key"}, a : Algs, n : 0..(IF Thorough THEN 400 ELSE 270)]
Bigs == [k : {"key", "msg"}, a : Algs, n : {511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 8064, 8128, 8192, 16384, 20000, 65536, 131072}]
Msgs == [k : {"msg"}, a : Algs, n : 0..(IF Thorough THEN 400 ELSE 260)]
Splits == [k : {"split"}, a : Algs, x : {0, 1, 2, 47, 48, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129, 200}, y : {0, 1, 8, 63, 64, 65, 127, 128, 129, 300}]
\* tags: each single-bit change, each truncation, extension
Flips == [k : {"flip"}, a : Algs, b : 0..511]
Nears == [k : {"near"}, a : Algs, i : 1..NNear, r : 1..(IF Thorough THEN 40 ELSE 6)]
Lens == [k : {"taglen"}, a : Algs, n : 0..80]
Walks == [k : {"walk"}, a : Algs, w : 1..(IF Thorough THEN 400 ELSE 80)]
Prfs == [k : {"prf"}, a : {"sha256", "sha384"}, n : {0, 1, 12, 31, 32, 33, 47, 48, 49, 64, 95, 96, 97, 104, 144, 145, 200},
         kl : {0, 1, 32, 48, 63, 64, 65, 127, 128, 129, 200}]
Cases == Bigs \cup Keys \cup Msgs \cup Splits \cup {f \in Flips : f.b < 8 * OutLen(f.a)} \cup Nears \cup Lens \cup Walks \cup Prfs

RECURSIVE Walk(_, _, _, _)
Walk(l, a, n, live) ==
    IF n = 0 THEN [i \in 1..Len(live) |-> Fin(live[i])]
    ELSE LET h == PickS(<<l, n, "h">>, live)
             sz == PickS(<<l, n, "z">>, <<0, 1, 3, 63, 64, 65, 127, 128, 129, RndN(<<l, n>>, 300), 256>>)
             h2 == "c" \o ToString(n)
         IN  IF RndN(<<l, n, "w">>, 10) < 7 \/ Len(live) > 3
             THEN <<Upd(h, D(<<l, n>>, sz), RndN(<<l, n, "al">>, 64))>> \o Walk(l, a, n - 1, live)
             ELSE <<Clone(h, h2)>> \o Walk(l, a, n - 1, Append(live, h2))

Sc(x) ==
  LET id == ToString(<<x>>) IN
  CASE x.k = "key" ->
        LET k == D(<<x.k, x.n>>, x.n)
        IN Scenario(id, <<New(x.a, "a", k), Upd("a", D(<<"m", x.n>>, x.n % 70), x.n % 64), Fin("a")>>)
    [] x.k = "msg" ->
        Scenario(id, <<New(x.a, "a", D("mk", 32)), Upd("a", D(<<"m", x.n>>, x.n), 100), Fin("a")>>)
    [] x.k = "split" ->
        Scenario(id, <<New(x.a, "a", D(<<"sk", x.x>>, x.y)), Upd("a", D(1, x.x), 0), Clone("a", "b"), Upd("a", D(2, x.y), 101),
                       Fin("a"), Upd("b", D(3, x.y), 100), Fin("b")>>)
    [] x.k = "flip" ->
        LET k == D("fk", 40)  m == D("fm", 50)  t == HMAC(x.a, k, m)
        IN Scenario(id, <<New(x.a, "a", k), Upd("a", m, 0), Clone("a", "b"), Ver("a", BFlip(t, x.b)), Ver("b", t)>>)
    [] x.k = "near" ->
        LET k == D("fk", 40)  m == D("fm", 50)  t == HMAC(x.a, k, m)
        IN Scenario(id, <<New(x.a, "a", k), Upd("a", m, 0), Clone("a", "b"), Ver("a", Near(<<x>>, t, x.i)), Ver("b", t)>>)
    [] x.k = "taglen" ->
        LET k == D("fk", 40)  m == D("fm", 50)  t == BCat(HMAC(x.a, k, m), BZero(64))
            t0 == HMAC(x.a, k, m)
        IN Scenario(id, <<New(x.a, "a", k), Upd("a", m, 0), Clone("a", "b"), Ver("a", BHead(t, x.n)),
                          Ver("b", IF x.n <= BLen(t0) THEN BTail(t0, x.n) ELSE BCat(t0, t0))>>)
    [] x.k = "walk" ->
        Scenario(id, <<New(x.a, "a", D(<<x, "k">>, RndN(<<x, "kl">>, 300)))>> \o Walk(<<x>>, x.a, 10, <<"a">>))
    [] x.k = "prf" ->
        Scenario(id, <<[op |-> "hmac.tls", alg |-> x.a, k |-> D(<<"pk", x.kl>>, x.kl), label |-> BAscii("key expansion"),
                        seed |-> D(<<"ps", x.n>>, 64), n |-> x.n],
                       [op |-> "hmac.tls", alg |-> x.a, k |-> D(<<"pk", x.kl>>, x.kl), label |-> D("lab", x.n),
                        seed |-> D(<<"ps", x.n>>, x.kl), n |-> x.n]>>)

Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
