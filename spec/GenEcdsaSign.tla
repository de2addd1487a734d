----------------------------- MODULE GenEcdsaSign -----------------------------
(* C08: signing over boundary keys, messages, randomness, buffers and forms.    *)
EXTENDS EcdsaCases

LdK(c, h, d) == [op |-> "ecdsa.load", curve |-> c, h |-> h, fmt |-> "raw", der |-> N2OS(d, L(c))]
Sg(h, form, hash, m, n) == [op |-> "ecdsa.sign", h |-> h, form |-> form, hash |-> hash, m |-> m, n |-> n]
Rng(b, then) == [op |-> "rng.set", bytes |-> b, then |-> then, fill |-> 0]
Forms == <<"fixed", "asn1">>
Both(c, id, d, hash, m) == Scenario(id, <<LdK(c, "k", d), Sg("k", "fixed", hash, <<m>>, 2 * L(c)), Sg("k", "asn1", hash, <<m>>, 2 * L(c) + 9)>>)
\* the randomness is scripted so that the outcome is known while generating:
\* look for signatures whose r or s is short
RECURSIVE Short(_, _, _, _)
Short(c, w, bits, i) ==
    LET x == D(<<"short", c, w, i>>, 16)
        sg == EcdsaSign(c, "sha256", "7", Hash("sha256", "aa"), x)
    IN  IF NBits(IF w = "r" THEN sg.r ELSE sg.s) <= 8 * L(c) - bits THEN x ELSE Short(c, w, bits, i + 1)

Big == IF Thorough THEN 8 ELSE 1
Cases ==
   [k : {"small"}, c : Curves, i : 1..12] \cup [k : {"nearn"}, c : Curves, i : 1..12]
   \cup [k : {"limb"}, c : Curves, i : 1..(40 * Big)] \cup [k : {"rnd"}, c : Curves, i : 1..(40 * Big)]
   \cup [k : {"pat"}, c : Curves, s : 0..127]
   \cup [k : {"len"}, c : Curves, n : (0..10) \cup {55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 200, 255, 256, 300, 1000}]
   \cup [k : {"parts"}, c : Curves, i : 1..(16 * Big)]
   \cup [k : {"buf"}, c : Curves, n : 0..110, f : {1, 2}]
   \cup [k : {"rng"}, c : Curves, i : 1..8] \cup [k : {"short"}, c : Curves, w : {"r", "s"}, b : {1, 8, 9}]
   \cup [k : {"rare"}, c : Curves, i : 1..8] \cup [k : {"retry"}, c : {"p256"}]
   \cup [k : {"fail"}, c : Curves, f : {1, 2}, n : {0, 15}]
   \cup [k : {"gen"}, c : Curves, i : 1..(6 * Big)]
   \cup [k : {"many"}, c : Curves, h : 0..2, i : 1..(2 * Big)]

Sc(x) ==
  LET id == ToString(<<"es", x>>)  c == x.c IN
  CASE x.k = "small" -> Both(c, id, NInt(x.i), HashN(x.i), D(<<x>>, x.i))
    [] x.k = "nearn" -> Both(c, id, NSub(N(c), NInt(x.i)), HashN(x.i), D(<<x>>, x.i))
    [] x.k = "limb" -> Both(c, id, Fix(c, NMod(LimbScalar(c, <<Seed, x>>), N(c))), HashN(x.i), D(<<x>>, 20))
    [] x.k = "rnd" -> Both(c, id, RndScalar(c, <<x>>), HashN(x.i), D(<<x>>, x.i))
    [] x.k = "pat" -> Both(c, id, Fix(c, Pattern(c, 7, x.s)), HashN(x.s), D(<<x>>, 8))
    [] x.k = "len" -> Scenario(id, <<LdK(c, "k", RndScalar(c, <<x>>))>> \o
            [j \in 1..3 |-> Sg("k", Forms[1 + (j % 2)], Hashes[j], <<D(<<x, j>>, x.n)>>, 110)])
    [] x.k = "parts" ->
        LET m == D(<<x>>, 150 + RndN(<<Seed, x>>, 200))
            cut(j) == RndN(<<Seed, x, j>>, 150)
            a == Min(cut(1), cut(2))  b == Max(cut(1), cut(2))
            ways == << <<m>>, <<BHead(m, a), BTail(m, a)>>, <<BHead(m, a), BSub(m, a, b - a), BTail(m, b)>>,
                       <<"", m, "">>, [q \in 1..BLen(m) |-> BSub(m, q - 1, 1)], << >>, <<"">> >>
            x16 == D(<<x, "x">>, 16)
        IN  Scenario(id, <<LdK(c, "k", RndScalar(c, <<x>>))>> \o
              Concats([w \in 1..7 |-> <<Rng(x16, "fail"), Sg("k", "fixed", HashN(x.i), ways[w], 100)>>]))
    [] x.k = "buf" -> Scenario(id, <<LdK(c, "k", RndScalar(c, <<x>>)), Rng(D(<<x>>, 16), "prng"), Sg("k", Forms[x.f], HashN(x.n), <<"00">>, x.n)>>)
    [] x.k = "rng" -> Scenario(id, <<LdK(c, "k", RndScalar(c, <<x>>)),
            Rng(CASE x.i <= 4 -> BRep(<<0, 255, 1, 128>>[x.i], 64) [] OTHER -> D(<<x>>, 64), "fail"),
            Sg("k", "fixed", HashN(x.i), <<D(<<x>>, 9)>>, 96), Sg("k", "asn1", HashN(x.i + 1), <<D(<<x>>, 9)>>, 110),
            Sg("k", "fixed", HashN(x.i), <<D(<<x>>, 9)>>, 96)>>)
    [] x.k = "short" -> LET r == Short(c, x.w, x.b, 0) IN
          Scenario(id, <<LdK(c, "k", "7"), Rng(BCat(r, r), "fail"), Sg("k", "fixed", "sha256", <<"aa">>, 100), Sg("k", "asn1", "sha256", <<"aa">>, 110)>>)
    [] x.k = "rare" /\ x.i > Len(RareX[c]) -> Scenario(id, << >>)
    [] x.k = "rare" -> LET r == RareX[c][x.i] IN
          Scenario(id, <<LdK(c, "k", "7"), Rng(BCat(r, r), "fail"), Sg("k", "fixed", "sha256", <<"aa">>, 100), Sg("k", "asn1", "sha256", <<"aa">>, 110)>>)
    [] x.k = "retry" ->
          Scenario(id, <<LdK(c, "k", "7"), Rng(BCat(RetryX, RetryX), "fail"), Sg("k", "fixed", "sha256", <<"aa">>, 100), Sg("k", "asn1", "sha256", <<"aa">>, 110)>>)
    [] x.k = "fail" -> Scenario(id, <<LdK(c, "k", RndScalar(c, <<x>>)), Rng(D(<<x>>, x.n), "fail"), Sg("k", Forms[x.f], "sha256", <<"01">>, 110)>>)
    [] x.k = "gen" -> Scenario(id, <<[op |-> "ecdsa.generate", curve |-> c, h |-> "k"],
            Sg("k", "fixed", HashN(x.i), <<D(<<x>>, 40)>>, 100), Sg("k", "asn1", HashN(x.i), <<D(<<x>>, 40)>>, 110)>>)
    [] x.k = "many" -> Scenario(id, <<LdK(c, "k", RndScalar(c, <<x>>))>> \o
            [j \in 1..24 |-> Sg("k", Forms[1 + (j % 2)], Hashes[1 + x.h], <<D(<<x, j>>, j)>>, 110)])
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
