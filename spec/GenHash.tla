------------------------------- MODULE GenHash -------------------------------
(* C01: every way of feeding a message to SHA-2.                               *)
EXTENDS Gen

Algs == {<<"trait","sha256">>, <<"trait","sha384">>, <<"trait","sha512">>,
         <<"raw","sha256">>, <<"raw","sha384">>, <<"raw","sha512">>,
         <<"tls","sha256">>, <<"tls","sha384">>}
B(a) == IF a[2] = "sha256" THEN 64 ELSE 128
New(a, h) == [op |-> "hash.new", api |-> a[1], alg |-> a[2], h |-> h]
Upd(h, m, al) == [op |-> "hash.update", h |-> h, m |-> m, al |-> al]
Fin(h) == [op |-> "hash.finish", h |-> h]

\* (1) every length up to a little over two blocks, in one update and one shot
Lens == [k : {"len"}, a : Algs, n : 0..(IF Thorough THEN 600 ELSE 272)]
Bigs == [k : {"len"}, a : Algs, n : UNION {{p - 17, p - 9, p - 8, p - 1, p, p + 1, p + 64} : p \in {512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144}}
                                    \cup {128 * RndN(<<Seed, "big", i>>, 1024) : i \in 1..8}]
\* (2) every pair of chunk lengths (x, y) with x anywhere in the first block and
\*     y around the block boundaries that x leaves
Splits == [k : {"split"}, a : {a \in Algs : Thorough \/ a[1] = "trait"}, x : 0..(IF Thorough THEN 257 ELSE 129), y : 0..13]
YLen(a, x, y) ==
    LET b == B(a)  r == b - (x % b)
        opts == <<0, 1, r - 1, r, r + 1, r + b - 1, r + b, r + b + 1, b, b - 1,
                  r + 2 * b, r + 3 * b + 7, Max(r - 9, 0), Max(r - 17, 0)>>
    IN opts[y + 1]
\* (3) random walks over the API: several contexts, forks, odd chunk sizes
Walks == [k : {"walk"}, a : Algs, w : 1..(IF Thorough THEN 150 ELSE 24)]
\* (4) comparisons of digests
Equals == [k : {"eq"}, a : {"sha256","sha384","sha512"}, t : {0, 1, 10, 16, 20, 32, 48, 64}, v : 0..9]
Nears == [k : {"near"}, a : {"sha256","sha384","sha512"}, t : {0, 10, 16, 20, 32}, v : 1..NNear, r : 1..(IF Thorough THEN 20 ELSE 3)]
Cmps == [k : {"cmp"}, a : {"sha256","sha384","sha512"}, a2 : {"sha256","sha384","sha512"}, v : 0..3]
\* (5) messages whose bit length needs more than 32 bits (hashed as repeated chunks)
Longs == [k : {"long"}, a : {<<"trait","sha256">>, <<"trait","sha512">>}, n : IF Thorough THEN {1, 2, 8} ELSE {1, 8}]
OutL(a) == CASE a = "sha256" -> 32 [] a = "sha384" -> 48 [] a = "sha512" -> 64
Cases == Bigs \cup Equals \cup Nears \cup Cmps \cup Longs \cup Lens \cup {s \in Splits : s.x <= 2 * B(s.a) + 1} \cup Walks

RECURSIVE Walk(_, _, _, _)
Walk(l, a, n, live) ==      \* live: sequence of live handle names
    IF n = 0 THEN FlattenSeq([i \in 1..Len(live) |-> <<Fin(live[i])>>])
    ELSE LET h == PickS(<<l, n, "h">>, live)
             what == RndN(<<l, n, "w">>, 10)
             sz == LET o == <<0, 1, 2, 3, B(a) - 1, B(a), B(a) + 1, 2 * B(a), RndN(<<l, n, "s">>, 300),
                              B(a) - 8, B(a) - 9, B(a) - 16, B(a) - 17, RndN(<<l, n, "s2">>, 900)>>
                   IN PickS(<<l, n, "z">>, o)
             h2 == "c" \o ToString(n)
         IN  IF what <= 6 THEN <<Upd(h, D(<<l, n>>, sz), RndN(<<l, n, "al">>, 64))>> \o Walk(l, a, n - 1, live)
             ELSE IF what = 7 /\ Len(live) < 4
                  THEN <<[op |-> "hash.clone", h |-> h, to |-> h2]>> \o Walk(l, a, n - 1, Append(live, h2))
             ELSE IF what = 8
                  THEN <<[op |-> "hash.forkfinish", h |-> h]>> \o Walk(l, a, n - 1, live)
             ELSE <<Upd(h, D(<<l, n, "x">>, 1), 0)>> \o Walk(l, a, n - 1, live)

Sc(x) ==
  CASE x.k = "len" ->
        LET m == D(<<x.k, x.n>>, x.n)
        IN  Scenario(ToString(<<x.k, x.a, x.n>>),
              (IF x.a[1] = "raw" THEN << >>
               ELSE <<[op |-> "hash.oneshot", api |-> x.a[1], alg |-> x.a[2], m |-> m, al |-> 100 + (x.n % 2)]>>)
              \o <<New(x.a, "a"), Upd("a", m, x.n % 64), Fin("a")>>)
    [] x.k = "split" ->
        LET y == YLen(x.a, x.x, x.y)
        IN  Scenario(ToString(<<x.k, x.a, x.x, x.y>>),
              <<New(x.a, "a"), Upd("a", D(<<x.k, x.x>>, x.x), 100), Upd("a", D(<<x.k, x.x, y>>, y), 100),
                [op |-> "hash.forkfinish", h |-> "a"],
                Upd("a", D(<<x.k, "t">>, 1), 0), Fin("a")>>)
    [] x.k = "eq" ->
        LET n == OutL(x.a)  v == D(<<x.a, x.v>>, n)
            w == IF x.t = 0 \/ x.t > n THEN n ELSE x.t
            other == CASE x.v = 0 -> BHead(v, w)
                       [] x.v = 1 -> v
                       [] x.v = 2 -> BFlip(BHead(v, w), 8 * w - 1)
                       [] x.v = 3 -> BFlip(BHead(v, w), 0)
                       [] x.v = 4 -> BHead(v, w - 1)
                       [] x.v = 5 -> BCat(BHead(v, w), "00")
                       [] x.v = 6 -> ""
                       [] x.v = 7 -> BFlip(BHead(v, w), RndN(<<x>>, 8 * w))
                       [] x.v = 8 -> BZero(w)
                       [] x.v = 9 -> BCat(v, v)
        IN Scenario(ToString(<<x>>), <<[op |-> "hash.equal", alg |-> x.a, v |-> v, other |-> other, trunc |-> x.t]>>)
    [] x.k = "near" ->
        LET n == OutL(x.a)  v == D(<<x.a, x.r>>, n)  w == IF x.t = 0 THEN n ELSE x.t  o == Near(<<x>>, BHead(v, w), x.v)
        IN Scenario(ToString(<<x>>), <<[op |-> "hash.equal", alg |-> x.a, v |-> v, other |-> o, trunc |-> x.t],
              [op |-> "hash.cmp", alg |-> x.a, alg2 |-> x.a, v |-> v, other |-> Near(<<x>>, v, x.v)]>>)
    [] x.k = "cmp" ->
        LET v == D(<<"cmp">>, OutL(x.a))
            o == BHead(BCat(v, BZero(64)), OutL(x.a2))
        IN Scenario(ToString(<<x>>), <<[op |-> "hash.cmp", alg |-> x.a, alg2 |-> x.a2, v |-> IF x.v = 2 THEN BZero(OutL(x.a)) ELSE v,
                other |-> CASE x.v = 0 -> o [] x.v = 1 -> BFlip(o, 8 * OutL(x.a2) - 1) [] x.v = 2 -> BZero(OutL(x.a2)) [] x.v = 3 -> BFlip(o, 5)]>>)
    [] x.k = "long" ->   \* 2^29 bytes and a bit
        Scenario(ToString(<<x.k, x.a, x.n>>),
          <<New(x.a, "a"), Upd("a", D("lh", 5 * x.n), 0),
            [op |-> "hash.updaterep", h |-> "a", m |-> D("lm", 1024), per |-> 16384, times |-> 32 * x.n],
            Upd("a", D("lt", 3), 0), Fin("a")>>)
    [] x.k = "walk" ->
        Scenario(ToString(<<x.k, x.a, x.w>>), <<New(x.a, "a")>> \o Walk(<<x.a, x.w>>, x.a, 14, <<"a">>))

Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
