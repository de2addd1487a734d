------------------------------ MODULE GenX25519 ------------------------------
(* C06: X25519 over boundary scalars and peer values.                          *)
EXTENDS Gen, X25519

Limb == <<"0000000000000000", "ffffffffffffffff", "0100000000000000", "0000000000000080", "feffffffffffffff", "edffffffffffffff">>
\* all combinations of extreme 64-bit limbs
Limbs(i) == BCatSeq(<<Limb[1 + (i % 6)], Limb[1 + ((i \div 6) % 6)], Limb[1 + ((i \div 36) % 6)], Limb[1 + ((i \div 216) % 6)]>>)
NLimbs == 1296
LowOrder == << BZero(32), BCat("01", BZero(31)),
   "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
   "5f9c95bcca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f157",
   "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
   "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
   "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f" >>
\* digit patterns: digit (s + w) mod 2^b at window w of b bits, so that the
\* scalars s = 0.. together use every digit in every window
RECURSIVE Digits(_, _, _)
Digits(b, s, w) == IF w * b >= 256 THEN "0"
                   ELSE NAdd(NMul(NInt((s + w) % (2 ^ b)), NPow2(w * b)), Digits(b, s, w + 1))
Pattern(b, s) == N2LE(NMod(Digits(b, s, 0), NPow2(256)), 32)

LoadK(k) == [op |-> "x25519.load", h |-> "k", k |-> k]
Pub(u) == [op |-> "x25519.loadpub", h |-> "p", u |-> u]
Dh(api) == [op |-> "x25519.dh", h |-> "k", peer |-> "p", api |-> api]

Cases ==
   [k : {"lo"}, i : 1..Len(LowOrder), s : 1..6, top : {0, 1}]
   \cup [k : {"near"}, i : -3..40, top : {0, 1}]
   \cup [k : {"nearp"}, i : 0..39, top : {0, 1}]
   \cup [k : {"limbu"}, i : (IF Thorough THEN 0..(NLimbs - 1) ELSE {i \in 0..(NLimbs - 1) : i % 3 = Seed % 3})]
   \cup [k : {"limbk"}, i : (IF Thorough THEN 0..(NLimbs - 1) ELSE {i \in 0..(NLimbs - 1) : i % 3 = Seed % 3})]
   \cup [k : {"bitk"}, i : 0..255]
   \cup [k : {"bitu"}, i : 0..255]
   \cup [k : {"pat"}, b : 3..6, s : 0..63]
   \cup [k : {"rnd"}, i : 1..(IF Thorough THEN 4000 ELSE 400)]
   \cup [k : {"agree"}, i : 1..(IF Thorough THEN 300 ELSE 60)]
   \cup [k : {"len"}, n : 0..70]

Top(u, t) == IF t = 1 THEN BSet(u, 31, 128 + (BAt(u, 31) % 128)) ELSE u
One(id, k, u) == Scenario(id, <<LoadK(k), Pub(u), Dh("static"), Dh("static")>>)
Sc(x) ==
  LET id == ToString(<<x>>) IN
  CASE x.k = "lo" -> One(id, IF x.s = 1 THEN BZero(32) ELSE IF x.s = 2 THEN BRep(255, 32) ELSE D(<<x>>, 32), Top(LowOrder[x.i], x.top))
    [] x.k = "near" -> One(id, D(<<x.i>>, 32), Top(N2LE(NInt(Max(x.i, 0)), 32), x.top))
    [] x.k = "nearp" -> One(id, D(<<x.i>>, 32), Top(N2LE(NAdd(NSub(P25519, "14"), NInt(x.i)), 32), x.top))
    [] x.k = "limbu" -> One(id, D(<<x.i>>, 32), Limbs(x.i))
    [] x.k = "limbk" -> One(id, Limbs(x.i), D(<<x.i, "u">>, 32))
    [] x.k = "bitk" -> One(id, BFlip(BZero(32), x.i), BFlip(BRep(255, 32), x.i))
    [] x.k = "bitu" -> One(id, BFlip(BRep(255, 32), x.i), BFlip(BZero(32), x.i))
    [] x.k = "pat" -> One(id, Pattern(x.b, x.s), N2LE("9", 32))
    [] x.k = "rnd" -> One(id, D(<<x, 1>>, 32), D(<<x, 2>>, 32))
    [] x.k = "agree" ->
        LET a == D(<<x, "a">>, 32)  b == D(<<x, "b">>, 32)
        IN  Scenario(id, <<[op |-> "rng.set", bytes |-> BCat(a, b), then |-> "fail"],
              [op |-> "x25519.generate", h |-> "a"], [op |-> "x25519.sgenerate", h |-> "b"],
              [op |-> "x25519.loadpub", h |-> "pa", u |-> X25519Base(a)], [op |-> "x25519.loadpub", h |-> "pb", u |-> X25519Base(b)],
              [op |-> "x25519.dh", h |-> "a", peer |-> "pb", api |-> "once"],
              [op |-> "x25519.dh", h |-> "b", peer |-> "pa", api |-> "static"],
              [op |-> "x25519.dh", h |-> "b", peer |-> "pb", api |-> "static"]>>)
    [] x.k = "len" -> Scenario(id, <<LoadK(D(<<x>>, x.n)), Pub(D(<<x, 1>>, x.n))>>)

Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
