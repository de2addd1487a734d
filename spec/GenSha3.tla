------------------------------- MODULE GenSha3 -------------------------------
(* C02: every way of absorbing into SHA-3 and squeezing from SHAKE.            *)
EXTENDS Gen

Rate(a) == CASE a = "sha3_256" -> 136 [] a = "sha3_512" -> 72 [] a = "shake128" -> 168 [] a = "shake256" -> 136
Sha3s == {"sha3_256", "sha3_512"}
Shakes == {"shake128", "shake256"}
New(a) == [op |-> "sha3.new", alg |-> a, h |-> "a"]
Upd(m) == [op |-> "sha3.update", h |-> "a", m |-> m]
Fin == [op |-> "sha3.finish", h |-> "a"]
XNew(a, parts) == [op |-> "xof.new", alg |-> a, h |-> "a", parts |-> parts]
Read(n) == [op |-> "xof.read", h |-> "a", n |-> n]

Lens == [k : {"len"}, a : Sha3s, n : 0..(IF Thorough THEN 700 ELSE 300)]
\* many blocks at once, to absorb and to squeeze
Powers == {512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}
BigN(a) == UNION {{p - 1, p, p + 1} : p \in Powers} \cup UNION {{r * Rate(a) - 1, r * Rate(a), r * Rate(a) + 1} : r \in {4, 7, 8, 16, 31, 32, 64, 100, 255, 256, 257, 1000}}
Bigs == UNION {[k : {IF a \in Sha3s THEN "len" ELSE "xlen"}, a : {a}, n : BigN(a)] : a \in Sha3s \cup Shakes}
XLongs == [k : {"xlong"}, a : Shakes, w : 1..12]
Splits == [k : {"split"}, a : Sha3s, x : 0..(IF Thorough THEN 290 ELSE 145), y : 1..12]
YLen(a, x, y) ==
    LET b == Rate(a)  r == b - (x % b)
    IN  <<0, 1, r - 1, r, r + 1, r + b - 1, r + b, r + b + 1, b, b - 1, r + 2 * b, 2 * r>>[y]
XLens == [k : {"xlen"}, a : Shakes, n : 0..(IF Thorough THEN 700 ELSE 345)]
\* absorb in parts, then squeeze in pieces: part sizes and read sizes around the rate
XSplits == [k : {"xsplit"}, a : Shakes, x : 1..10, y : 1..10, z : 1..10]
Edge(a) == LET r == Rate(a) IN <<0, 1, 7, 8, r - 1, r, r + 1, 2 * r - 1, 2 * r, 3 * r + 5>>
XWalks == [k : {"xwalk"}, a : Shakes, w : 1..(IF Thorough THEN 600 ELSE 120)]
Walks == [k : {"walk"}, a : Sha3s, w : 1..(IF Thorough THEN 600 ELSE 120)]
Cases == Bigs \cup XLongs \cup Lens \cup Splits \cup XLens \cup XSplits \cup XWalks \cup Walks

Sz(l, a) == LET r == Rate(a) IN PickS(l, <<0, 1, 2, 8, r - 1, r, r + 1, 2 * r, RndN(l, 400), RndN(l, 40), r - 8, 2 * r + 1>>)

Sc(x) ==
  CASE x.k = "len" -> Scenario(ToString(<<x.k, x.a, x.n>>), <<New(x.a), Upd(D(<<x.k, x.n>>, x.n)), Fin>>)
    [] x.k = "split" ->
        Scenario(ToString(<<x.k, x.a, x.x, x.y>>),
          <<New(x.a), Upd(D(<<"s1", x.x>>, x.x)), Upd(D(<<"s2", x.x, x.y>>, YLen(x.a, x.x, x.y))), Upd("a5"), Fin>>)
    [] x.k = "xlen" ->
        Scenario(ToString(<<x.k, x.a, x.n>>),
          <<XNew(x.a, <<D(<<x.k, x.n>>, x.n)>>), Read(x.n), Read(1), Read(Rate(x.a))>>)
    [] x.k = "xlong" -> \* the same long output in one read, and in many
        LET n == x.w * 1000 + RndN(<<Seed, x>>, 1000)  c == PickS(<<Seed, x, 1>>, <<1, 7, 32, Rate(x.a) - 1, Rate(x.a), Rate(x.a) + 1, 2 * Rate(x.a)>>) IN
        Scenario(ToString(<<x.k, x.a, x.w>>), <<XNew(x.a, <<D(<<x>>, 34)>>), Read(n), XNew(x.a, <<D(<<x>>, 34)>>)>> \o [i \in 1..Min(n \div c, 60) |-> Read(c)] \o <<Read(5), Read(n)>>)
    [] x.k = "xsplit" ->
        LET ed == Edge(x.a)
        IN  Scenario(ToString(<<x.k, x.a, x.x, x.y, x.z>>),
              <<XNew(x.a, <<D(<<1, x.x>>, ed[x.x]), D(<<2, x.y>>, ed[x.y]), D(<<3, x.z>>, ed[x.z])>>),
                Read(ed[x.y]), Read(ed[x.z]), Read(ed[x.x]), Read(ed[x.z]), Read(33)>>)
    [] x.k = "xwalk" ->
        Scenario(ToString(<<x.k, x.a, x.w>>),
          <<XNew(x.a, [i \in 1..RndN(<<x, "p">>, 5) |-> D(<<x, i>>, Sz(<<x, i>>, x.a))])>>
          \o [i \in 1..8 |-> Read(Sz(<<x, "r", i>>, x.a))])
    [] x.k = "walk" ->
        Scenario(ToString(<<x.k, x.a, x.w>>),
          <<New(x.a)>> \o [i \in 1..(1 + RndN(<<x, "n">>, 9)) |-> Upd(D(<<x, i>>, Sz(<<x, "u", i>>, x.a)))] \o <<Fin>>)

Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
