------------------------------ MODULE GenRsaSign ------------------------------
(* C12: signing with consistent keys of every supported size, with keys whose   *)
(* parts do not fit together, with every output buffer size class, and with     *)
(* scripted randomness.                                                         *)
EXTENDS RsaCases

Big == IF Thorough THEN 4 ELSE 1
K0 == Keys["b2048"]
Swapped(k) == [k EXCEPT !.p = k.q, !.q = k.p, !.dp = k.dq, !.dq = k.dp, !.iqmp = NInvMod(NMod(k.p, k.q), k.q)]
Lcm(k) == LET p1 == NSub(k.p, "1")  q1 == NSub(k.q, "1") IN NDiv(NMul(p1, q1), NGcd(p1, q1))
SmallD(k) == [k EXCEPT !.d = NMod(k.d, Lcm(k))]
All(h, n) == Concats([j \in 1..3 |-> <<Sg(h, "pkcs1", Hashes[j], M0, n), Sg(h, "pss", Hashes[j], M0, n)>>])
Try(h, pad, hash, n) == [op |-> "rsa.sign", h |-> h, pad |-> pad, hash |-> hash, m |-> M0, n |-> n, opt |-> TRUE]
Tries == <<Try("k", "pkcs1", "sha256", 1024), Try("k", "pss", "sha512", 1024), [op |-> "rsa.export", h |-> "k", fmt |-> "pkcs1", n |-> 8000, opt |-> TRUE],
           [op |-> "rsa.export", h |-> "k", fmt |-> "pkcs8", n |-> 8000, opt |-> TRUE]>>
F(k, c) == k[c]
Parts == {"n", "e", "d", "p", "q", "dp", "dq", "iqmp"}
Broken(k, c, i) ==
  LET v == F(k, c)
      w == CASE i = 1 -> NAdd(v, "2") [] i = 2 -> NSub(v, "2") [] i = 3 -> NAdd(v, "1") [] i = 4 -> "0" [] i = 5 -> "1" [] i = 6 -> "2" [] i = 7 -> "3"
             [] i = 8 -> NMul(v, "2") [] i = 9 -> NAdd(NMul(v, "2"), "1") [] i = 10 -> NShr(v, 1) [] i = 11 -> NShr(v, 8) [] i = 12 -> NShr(v, 64) [] i = 13 -> NShr(v, NBits(v) \div 2)
             [] i = 14 -> NMul(v, v) [] i = 15 -> NAdd(v, k.p) [] i = 16 -> NAdd(v, NSub(k.p, "1")) [] i = 17 -> NAdd(v, NPow2(NBits(v) + 1)) [] i = 18 -> NAdd(v, NPow2(64 * ((NBits(v) + 63) \div 64)))
             [] i = 19 -> NSub(NPow2(NBits(v)), "1") [] i = 20 -> NPow2(NBits(v) - 1) [] i = 21 -> NAdd(NPow2(4096), "1") [] i = 22 -> NAdd(NPow2(8192), "1") [] i = 23 -> NSub(NPow2(4096), "1")
             [] i = 24 -> NAdd(v, k.n) [] i = 25 -> NAdd(NPow2(NBits(v) - 1), "1") [] i = 26 -> k.q [] i = 27 -> k.p [] i = 28 -> k.n
  IN  [k EXCEPT ![c] = w]
Mixed(i) ==
  LET k == K0  o == Keys["c2048"]  t == Keys["b3072"] IN
  CASE i = 1 -> [k EXCEPT !.p = k.q, !.q = k.p]
    [] i = 2 -> [k EXCEPT !.dp = k.dq, !.dq = k.dp]
    [] i = 3 -> [k EXCEPT !.n = o.n]
    [] i = 4 -> [o EXCEPT !.n = k.n, !.e = k.e]
    [] i = 5 -> [k EXCEPT !.p = o.p, !.dp = o.dp]
    [] i = 6 -> [k EXCEPT !.q = o.q, !.dq = o.dq]
    [] i = 7 -> [k EXCEPT !.q = k.p, !.dq = k.dp, !.n = NMul(k.p, k.p)]
    [] i = 8 -> [k EXCEPT !.e = "3"]
    [] i = 9 -> [t EXCEPT !.n = k.n]
    [] i = 10 -> [k EXCEPT !.n = t.n]
    [] i = 11 -> [k EXCEPT !.p = t.p, !.dp = t.dp]
    [] i = 12 -> [k EXCEPT !.q = t.q, !.dq = t.dq]
    [] i = 13 -> [k EXCEPT !.q = "3", !.n = NMul(k.p, "3")]
    [] i = 14 -> [k EXCEPT !.q = "1", !.n = k.p]
    [] i = 15 -> [k EXCEPT !.p = k.n, !.q = "1", !.dq = "0", !.iqmp = "1"]
    [] i = 16 -> [k EXCEPT !.dp = "0", !.dq = "0"]
    [] i = 17 -> [k EXCEPT !.iqmp = k.p]
    [] i = 18 -> [k EXCEPT !.d = "1"]
    [] i = 19 -> [k EXCEPT !.dp = NSub(k.p, "1"), !.dq = NSub(k.q, "1")]
    [] i = 20 -> [k EXCEPT !.p = NSub(NPow2(1024), "1"), !.q = NSub(NPow2(1024), "1")]
    [] i = 21 -> [k EXCEPT !.p = NAdd(NPow2(4095), "1"), !.q = NAdd(NPow2(4095), "1")]
    [] i = 22 -> [k EXCEPT !.p = "0", !.q = "0"]
    [] i = 23 -> [k EXCEPT !.q = NAdd(NPow2(4096), "1")]
    [] i = 24 -> [k EXCEPT !.iqmp = NAdd(k.iqmp, k.p)]

RECURSIVE ShortMsg(_, _, _)
ShortMsg(k, pad, i) == LET m == N2OS(NInt(i), 3) IN IF BHead(SigOf(k, pad, "sha256", m, BZero(32)), 1) = "00" THEN m ELSE ShortMsg(k, pad, i + 1)

Cases ==
   [k : {"key"}, nm : Sizes \cup Large, v : 1..3]
   \cup [k : {"refused"}, nm : Refused] \cup [k : {"unbal"}, nm : {"u2048", "u1100"}, v : 1..2]
   \cup [k : {"exp"}, i : 1..8]
   \cup [k : {"swapmany"}, nm : {"x2048", "x2047", "d2048", "b2112", "b3072"}, i : 1..(2 * Big)]
   \cup [k : {"buf"}, nm : {"b2048", "b2041", "b2049"}, pad : Pads, n : {0, 1, 8, 128, 247, 248, 249, 254, 255, 256, 257, 258, 263, 264, 265, 300, 1024, 1100}]
   \cup [k : {"salt"}, nm : {"b2048", "b2049", "b2054"}, h : 1..3, i : 1..6]
   \cup [k : {"rngfail"}, h : 1..3, n : {0, 1, 31, 32, 47, 48, 63}]
   \cup [k : {"broken"}, c : Parts, i : 1..28]
   \cup [k : {"mixed"}, i : 1..24]
   \cup [k : {"msg"}, h : 1..3, n : {0, 1, 55, 56, 63, 64, 111, 112, 127, 128, 129, 1000}]
   \cup [k : {"lead"}, nm : {"b2048", "b2055"}, pad : Pads]
   \cup [k : {"many"}, i : 1..(6 * Big)]
   \cup [k : {"neg"}, c : 2..9, i : 1..2]

Sc(x) ==
  LET id == ToString(<<"rs", x>>) IN
  CASE x.k = "key" -> LET k0 == Keys[x.nm]  k == <<k0, Swapped(k0), SmallD(k0)>>[x.v]  L == ModLen(k.n) IN
        Scenario(id, <<LdPriv("k", k)>> \o All("k", L) \o <<[op |-> "rsa.pub", h |-> "k", to |-> "v"], V("v", "pss", "sha256", M0, SigOf(k0, "pss", "sha256", M0, Salt(x, "sha256"))),
                 V("v", "pkcs1", "sha512", M0, SigOf(k0, "pkcs1", "sha512", M0, "")), Ex("k", "pkcs1", 8000), Ex("k", "pkcs8", 8000), Ex("v", "pkcs1", 4000), Ex("v", "spki", 4000)>>)
    [] x.k = "refused" -> OpenScenario(id, <<LdPriv("k", Keys[x.nm])>> \o Tries)
    [] x.k = "unbal" -> OpenScenario(id, <<LdPriv("k", IF x.v = 1 THEN Keys[x.nm] ELSE Swapped(Keys[x.nm]))>> \o Tries)
    [] x.k = "exp" -> Scenario(id, <<LdPriv("k", KeysE[x.i])>> \o All("k", 256) \o <<Ex("k", "pkcs1", 8000), Ex("k", "pkcs8", 8000)>>)
    [] x.k = "swapmany" -> LET k == Swapped(Keys[x.nm]) IN Scenario(id, <<LdPriv("k", k)>> \o [j \in 1..16 |-> Sg("k", IF j % 2 = 0 THEN "pss" ELSE "pkcs1", HashN(j), D(<<x, j>>, 8), 600)])
    [] x.k = "buf" -> Scenario(id, <<LdPriv("k", Keys[x.nm]), Sg("k", x.pad, HashN(x.n), M0, x.n)>>)
    [] x.k = "salt" -> LET h == Hashes[x.h]  s == IF x.i <= 4 THEN BRep(<<0, 255, 1, 188>>[x.i], HLen(h)) ELSE D(<<x>>, HLen(h)) IN
        Scenario(id, <<LdPriv("k", Keys[x.nm]), Rng(s, "fail"), Sg("k", "pss", h, M0, 260), Sg("k", "pss", h, M0, 260), Sg("k", "pkcs1", h, M0, 260)>>)
    [] x.k = "rngfail" -> Scenario(id, <<LdPriv("k", K0), Rng(BRep(7, x.n), "fail"), Sg("k", "pss", Hashes[x.h], M0, 256), Rng(D(<<x>>, 64), "prng"), Sg("k", "pss", Hashes[x.h], M0, 256)>>)
    [] x.k = "broken" -> OpenScenario(id, <<LdPriv("k", Broken(K0, x.c, x.i))>> \o Tries)
    [] x.k = "mixed" -> OpenScenario(id, <<LdPriv("k", Mixed(x.i))>> \o Tries)
    [] x.k = "msg" -> Scenario(id, <<LdPriv("k", K0), Sg("k", "pkcs1", Hashes[x.h], D(<<x>>, x.n), 256), Sg("k", "pss", Hashes[x.h], D(<<x>>, x.n), 256)>>)
    [] x.k = "lead" -> LET k == Keys[x.nm]  m == ShortMsg(k, x.pad, 0) IN
        Scenario(id, <<LdPriv("k", k), Rng(BZero(32), "prng"), Sg("k", x.pad, "sha256", m, ModLen(k.n)), Rng(BZero(32), "prng"), Sg("k", x.pad, "sha256", m, 1024)>>)
    [] x.k = "many" -> Scenario(id, <<LdPriv("k", Keys[<<"b2048", "c2048", "d2048", "b2304", "b3072", "b2112">>[1 + (x.i % 6)]])>>
            \o [j \in 1..20 |-> Sg("k", IF j % 2 = 0 THEN "pss" ELSE "pkcs1", HashN(j), D(<<x, j>>, 8), 600)])
    [] x.k = "neg" -> \* a component written as a negative number
        LET k == K0
            it(i) == LET b == DIntBody(<<"0", k.n, k.e, k.d, k.p, k.q, k.dp, k.dq, k.iqmp>>[i]) IN
                     IF i # x.c THEN DTlv(2, b) ELSE DTlv(2, IF x.i = 1 THEN (IF BAt(b, 0) = 0 THEN BTail(b, 1) ELSE BCat("ff", b)) ELSE BCat("80", b))
        IN  Scenario(id, <<[op |-> "rsa.load", h |-> "k", fmt |-> "pkcs1", der |-> DSeq([i \in 1..9 |-> it(i)])]>>)
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
