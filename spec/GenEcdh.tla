------------------------------- MODULE GenEcdh -------------------------------
(* C07: NIST curve key agreement over boundary scalars, points and encodings.  *)
EXTENDS EcCases, EcMid

LoadK(c, h, k) == [op |-> "ecdh.load", curve |-> c, h |-> h, k |-> k]
LoadP(c, h, pt) == [op |-> "ecdh.loadpub", curve |-> c, h |-> h, pt |-> pt]
Dh(h, p, api) == [op |-> "ecdh.dh", h |-> h, peer |-> p, api |-> api]
One(c, id, d, Q) == Scenario(id, <<LoadK(c, "k", N2OS(d, L(c))), LoadP(c, "p", EcEncode(c, Q)), Dh("k", "p", "static")>>)

NP == IF Thorough THEN 40 ELSE 4
PtOf(c, i) == EcBase(c, NAdd("1", NMod(OS2N(D(<<"pt", c, i>>, L(c))), NSub(N(c), "1"))))

Cases ==
   [k : {"small"}, c : Curves, i : 1..40] \cup [k : {"nearn"}, c : Curves, i : 1..40]
   \cup [k : {"pow"}, c : Curves, i : 0..383, m : {-1, 0, 1}]
   \cup [k : {"pat"}, c : Curves, b : {5, 7}, s : 0..127]
   \cup [k : {"npat"}, c : Curves, b : {5, 7}, s : 0..127]
   \cup [k : {"limb"}, c : Curves, i : 1..(IF Thorough THEN 1500 ELSE 150)]
   \cup [k : {"rnd"}, c : Curves, i : 1..(IF Thorough THEN 1500 ELSE 100)]
   \cup [k : {"x0"}, c : Curves, i : 0..(IF Thorough THEN 60 ELSE 12), neg : {0, 1}]      \* smallest x
   \cup [k : {"xp"}, c : Curves, i : 1..(IF Thorough THEN 60 ELSE 8), neg : {0, 1}]       \* largest x
   \cup [k : {"xlimb"}, c : Curves, i : 1..(IF Thorough THEN 400 ELSE 60), neg : {0, 1}]
   \* intermediates of the curve equation with extreme words: of the peer's point, and of the result's
   \cup {x \in [k : {"mid"}, c : Curves, f : DOMAIN MidX.p256, i : 1..80, w : {0, 1}] :
              x.i <= Len(MidX[x.c][x.f]) /\ (x.w = 0 \/ x.f \in {"sq", "xx", "yy", "cu"})}
   \cup [k : {"ysm"}, c : Curves, i : 1..3, neg : {0, 1}]
   \cup [k : {"g"}, c : Curves, i : 1..24, j : 1..4]                                    \* multiples of G as peers
   \cup [k : {"agree"}, c : Curves, i : 1..(IF Thorough THEN 150 ELSE 25)]
   \* invalid and unusual encodings
   \cup [k : {"klen"}, c : Curves, n : 0..60] \cup [k : {"kpad"}, c : Curves, n : 0..20]
   \cup [k : {"krange"}, c : Curves, i : -6..6] \cup [k : {"kmax"}, c : Curves, i : 1..8]
   \cup [k : {"plen"}, c : Curves, n : 0..102] \cup [k : {"pfirst"}, c : Curves, b : 0..255]
   \cup [k : {"pflip"}, c : Curves, b : 0..767]
   \cup [k : {"noncanx"}, c : Curves, i : 0..(IF Thorough THEN 60 ELSE 12), neg : {0, 1}]
   \cup [k : {"noncany"}, c : Curves, i : 1..3]
   \cup [k : {"coord"}, c : Curves, i : 1..16]
   \cup [k : {"twist"}, c : Curves, i : 1..(IF Thorough THEN 200 ELSE 20)]

Fix(c, d) == IF ScalarOk(c, d) THEN d ELSE "1"
Sc(x) ==
  LET id == ToString(<<x>>)  c == x.c IN
  CASE x.k = "small" -> One(c, id, NInt(x.i), PtOf(c, x.i % NP))
    [] x.k = "nearn" -> One(c, id, NSub(N(c), NInt(x.i)), PtOf(c, x.i % NP))
    [] x.k = "pow" -> One(c, id, Fix(c, IF x.m = -1 THEN NSub(NPow2(x.i), "1") ELSE NAdd(NPow2(x.i), NInt(x.m))), PtOf(c, x.i % NP))
    [] x.k = "pat" -> One(c, id, Fix(c, Pattern(c, x.b, x.s)), PtOf(c, x.s % NP))
    [] x.k = "npat" -> One(c, id, Fix(c, NSub(N(c), Pattern(c, x.b, x.s))), PtOf(c, x.s % NP))
    [] x.k = "limb" -> One(c, id, Fix(c, NMod(LimbScalar(c, <<Seed, x>>), N(c))), PtOf(c, x.i % NP))
    [] x.k = "rnd" -> One(c, id, Fix(c, NMod(OS2N(D(<<x>>, L(c))), N(c))), PtOf(c, x))
    [] x.k = "x0" -> One(c, id, OS2N(D(<<x>>, L(c) - 1)), Flip(c, EcLift(c, NextX(c, NInt(x.i))), x.neg))
    [] x.k = "xp" -> One(c, id, OS2N(D(<<x>>, L(c) - 1)), Flip(c, EcLift(c, PrevX(c, NSub(P(c), NInt(x.i)))), x.neg))
    [] x.k = "xlimb" -> One(c, id, OS2N(D(<<x>>, L(c) - 1)), Flip(c, EcLift(c, NextX(c, NMod(LimbScalar(c, <<x.i, Seed>>), P(c)))), x.neg))
    [] x.k = "mid" -> LET xs == MidX[c][x.f]  d == OS2N(D(<<x>>, L(c) - 1))  Q == Flip(c, EcLift(c, xs[x.i]), x.i % 2) IN
         One(c, id, d, IF x.w = 0 THEN Q ELSE EcMul(c, NInvMod(d, N(c)), Q))
    [] x.k = "ysm" -> One(c, id, OS2N(D(<<x>>, L(c) - 1)), Flip(c, SmallY(c)[x.i], x.neg))
    [] x.k = "g" -> One(c, id, CASE x.j = 1 -> NInt(x.i) [] x.j = 2 -> NSub(N(c), NInt(x.i)) [] x.j = 3 -> NInvMod(NInt(x.i), N(c))
                                 [] x.j = 4 -> NSub(N(c), NInvMod(NInt(x.i), N(c))), EcBase(c, NInt(x.i)))
    [] x.k = "agree" ->
        LET a == Fix(c, NMod(OS2N(D(<<x, "a">>, L(c))), N(c)))  b == Fix(c, NMod(OS2N(D(<<x, "b">>, L(c))), N(c)))
        IN  Scenario(id, <<[op |-> "rng.set", bytes |-> BCat(N2OS(a, L(c)), N2OS(b, L(c))), then |-> "fail"],
              [op |-> "ecdh.generate", curve |-> c, h |-> "a"], [op |-> "ecdh.sgenerate", curve |-> c, h |-> "b"],
              LoadP(c, "pa", EcEncode(c, EcBase(c, a))), LoadP(c, "pb", EcEncode(c, EcBase(c, b))),
              Dh("a", "pb", "once"), Dh("b", "pa", "static"), Dh("b", "pb", "static")>>)
    [] x.k = "klen" -> Scenario(id, <<LoadK(c, "k", D(<<x>>, x.n))>>)
    [] x.k = "kpad" -> Scenario(id, <<LoadK(c, "k", BCat(BZero(x.n), D(<<x>>, L(c) - (x.n % 5)))),
                                      LoadK(c, "j", BCat(D(<<x, 1>>, L(c) - 1), BZero(x.n))),
                                      LoadK(c, "i", BZero(x.n + 20))>>)
    [] x.k = "krange" -> Scenario(id, <<LoadK(c, "k", N2OS(IF x.i < 0 THEN NSub(N(c), NInt(-x.i)) ELSE NAdd(N(c), NInt(x.i)), L(c))),
                                        LoadK(c, "j", N2OS(NInt(Max(0, x.i)), L(c)))>>)
    [] x.k = "kmax" -> Scenario(id, <<LoadK(c, "k", N2OS(NSub(NPow2(8 * L(c)), NInt(x.i)), L(c))),
                                      LoadK(c, "j", BCat("01", N2OS(NInt(x.i), L(c)))),
                                      LoadK(c, "i", N2OS(OS2N(RndLimbs(<<x>>, L(c))), L(c)))>>)
    [] x.k = "plen" -> LET g == BCat(EcEncode(c, PtOf(c, 1)), BZero(60)) IN Scenario(id, <<LoadP(c, "p", BHead(g, x.n))>>)
    [] x.k = "pfirst" -> LET q == EcEncode(c, PtOf(c, x.b)) IN
                         Scenario(id, <<LoadP(c, "p", BSet(q, 0, x.b)), LoadP(c, "q", BHead(BSet(q, 0, x.b), 1 + L(c)))>>)
    [] x.k = "pflip" -> LET q == EcEncode(c, PtOf(c, 1)) IN Scenario(id, <<LoadP(c, "p", BFlip(q, 8 + (x.b % (16 * L(c)))))>>)
    [] x.k = "noncanx" -> LET q == Flip(c, EcLift(c, NextX(c, NInt(x.i))), x.neg)
                          IN  Scenario(id, <<LoadP(c, "p", BCatSeq(<<"04", N2OS(NAdd(q[1], P(c)), L(c)), N2OS(q[2], L(c))>>))>>)
    [] x.k = "noncany" -> LET q == SmallY(c)[x.i]
                          IN  Scenario(id, <<LoadP(c, "p", BCatSeq(<<"04", N2OS(q[1], L(c)), N2OS(NAdd(q[2], P(c)), L(c))>>))>>)
    [] x.k = "coord" ->
        LET v(i) == <<"0", "1", P(c), NSub(P(c), "1"), N(c), NSub(NPow2(8 * L(c)), "1"), NAdd(P(c), "1"), Curve(c).b>>[1 + (i % 8)]
        IN  Scenario(id, [j \in 1..8 |-> LoadP(c, "p" \o ToString(j), BCatSeq(<<"04", N2OS(v(j), L(c)), N2OS(v(x.i + j), L(c))>>))])
    [] x.k = "twist" ->     \* x with no point on the curve
        LET RECURSIVE nx(_)
            nx(v) == IF EcHasY(c, v) THEN nx(NAdd(v, "1")) ELSE v
            v == nx(OS2N(D(<<x>>, L(c) - 1)))
        IN  Scenario(id, <<LoadP(c, "p", BCatSeq(<<"04", N2OS(v, L(c)), N2OS(EcSqrt(c, EcRhs(c, v)), L(c))>>))>>)

Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
