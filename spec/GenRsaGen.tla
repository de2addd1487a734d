------------------------------- MODULE GenRsaGen -------------------------------
(* C13: key generation from ordinary, scripted and degenerate randomness.        *)
(* A candidate and each witness is drawn as one string of the prime's length.    *)
EXTENDS RsaCases, RsaGenPrimes

B2(bits) == bits \div 2
Cand(bits, nm) == N2OS(GP[nm \o ToString(B2(bits))], B2(bits) \div 8)
\* with the bits cleared that the generator has to set
Bare(b) == LET t == BSet(b, 0, BAt(b, 0) % 64) IN BSet(t, BLen(t) - 1, BAt(t, BLen(t) - 1) - 1)
Num(bits, n) == N2OS(n, B2(bits) \div 8)

RECURSIVE TwoAdic(_)
TwoAdic(n) == IF NBit(n, 0) = 1 THEN 0 ELSE 1 + TwoAdic(NShr(n, 1))
RECURSIVE LiarFrom(_, _, _)
LiarFrom(z, n, j) == IF z = NSub(n, "1") THEN TRUE ELSE IF j = 0 THEN FALSE ELSE LiarFrom(NMulMod(z, z, n), n, j - 1)
IsLiar(b, n) ==
    LET w == NSub(n, "1")  a == TwoAdic(w)  z == NPowMod(b, NShr(w, a), n)
    IN  z = "1" \/ LiarFrom(z, n, a - 1)
RECURSIVE FindBase(_, _, _, _)
FindBase(n, liar, lab, i) ==
    LET b == NMod(OS2N(D(<<lab, i>>, 200)), n) IN IF IsLiar(b, n) = liar THEN b ELSE FindBase(n, liar, lab, i + 1)

\* a base for which Fermat's test passes but the strong test does not
RECURSIVE FermatBase(_, _, _)
FermatBase(n, lab, i) ==
    LET b == NMod(OS2N(D(<<lab, i>>, 200)), n)
    IN  IF NPowMod(b, NSub(n, "1"), n) = "1" /\ ~IsLiar(b, n) THEN b ELSE FermatBase(n, lab, i + 1)
Rounds(bits) == IF bits = 2048 THEN 5 ELSE 4          \* FIPS 186-5 table B.1
Wit(bits, lab, n) == BCatSeq([j \in 1..n |-> BSet(D(<<"wit", lab, j>>, B2(bits) \div 8), 0, 90)])
Gn(bits) == [op |-> "rsa.generate", h |-> "k", bits |-> bits]
Uses(bits, x) == <<[op |-> "rsa.export", h |-> "k", fmt |-> "pkcs1", n |-> 8000], Sg("k", "pkcs1", "sha256", D(x, 9), bits \div 8),
    Sg("k", "pss", "sha512", D(x, 9), bits \div 8), Ex("k", "pkcs8", 8000), [op |-> "rsa.pub", h |-> "k", to |-> "v"], Ex("v", "spki", 2000), Ex("v", "pkcs1", 2000)>>
Shapes == {"p", "q", "close", "high", "min", "max", "tz"}
Composite == {"liar", "sq", "f751_", "f743_"}
Quick == {2048}
AllBits == IF Thorough THEN {2048, 3072} ELSE {2048}

Cases ==
   [k : {"plain"}, bits : {2048}, i : 1..(IF Thorough THEN 200 ELSE 16)]
   \cup [k : {"plain"}, bits : {3072}, i : 1..(IF Thorough THEN 24 ELSE 3)]
   \cup [k : {"plain"}, bits : {4096}, i : 1..(IF Thorough THEN 12 ELSE 2)]
   \cup (IF Thorough THEN [k : {"plain"}, bits : {6144, 8192}, i : 1..3] ELSE {})
   \cup [k : {"pair"}, bits : AllBits, a : Shapes, b : Shapes]
   \cup [k : {"bare"}, bits : {2048, 3072}, a : {"p", "min", "max"}]
   \cup [k : {"one"}, bits : {2048, 3072}, v : 1..3]
   \cup [k : {"comp"}, bits : {2048, 3072}, c : Composite]
   \cup [k : {"liars"}, bits : {2048, 3072}, n : 1..4]
   \cup [k : {"fermat"}, bits : {2048, 3072}, n : 0..2]
   \cup [k : {"unsuit"}, bits : {2048, 3072}, c : {"liar", "p"}, v : 1..6]
   \cup [k : {"small"}, bits : {2048}, v : {3, 5, 7, 9, 15, 21, 105, 547, 733, 739, 743, 751, 757}]
   \cup [k : {"fixed"}, bits : {2048, 3072}, v : {0, 255, 1, 85}]
   \cup [k : {"size"}, bits : {0, 1, 512, 1024, 1536, 2047, 2049, 2560, 4095, 4097, 5120, 8191, 8193, 16384, 65536}]

Shape(x) ==
  LET bits == x.bits  r == Rounds(bits) + 1  C(nm) == Cand(bits, nm) IN
  CASE x.k = "pair" -> BCatSeq(<<C(x.a), Wit(bits, x, r), C(x.b), Wit(bits, <<x, 2>>, r)>>)
    [] x.k = "bare" -> BCatSeq(<<Bare(C(x.a)), Wit(bits, x, r)>>)
    [] x.k = "one" -> IF x.v = 1 THEN BCatSeq(<<C("one"), Wit(bits, x, r)>>)
                      ELSE IF x.v = 2 THEN BCatSeq(<<C("p"), Wit(bits, x, r), C("one"), Wit(bits, x, r)>>)
                      ELSE BCatSeq(<<C("one"), Wit(bits, x, r), C("oneb"), Wit(bits, x, r)>>)
    [] x.k = "comp" -> BCatSeq(<<C(x.c), C(x.c), C(x.c)>>)
    [] x.k = "liars" -> LET n == GP["liar" \o ToString(B2(bits))] IN
        BCatSeq(<<C("liar")>> \o [j \in 1..Min(x.n, Rounds(bits) - 1) |-> Num(bits, FindBase(n, TRUE, <<x, j>>, 0))]
                \o [j \in 1..3 |-> Num(bits, FindBase(n, FALSE, <<x, j + 10>>, 0))])
    [] x.k = "fermat" -> \* (x.n strong liars first)
        LET n == GP["liar" \o ToString(B2(bits))] IN
        BCatSeq(<<C("liar")>> \o [j \in 1..x.n |-> Num(bits, FindBase(n, TRUE, <<x, j>>, 0))]
                \o [j \in 1..6 |-> Num(bits, FermatBase(n, <<x, j + 10>>, 0))])
    [] x.k = "unsuit" -> LET w == GP[x.c \o ToString(B2(bits))]
                             b == <<"0", "1", NSub(w, "1"), w, NSub(NPow2(B2(bits)), "1"), NAdd(w, "1")>>[x.v] IN
        BCatSeq(<<C(x.c)>> \o [j \in 1..12 |-> Num(bits, b)])
    [] x.k = "small" -> \* the largest multiple of the small number, odd, below the bound
        LET top == NSub(NPow2(B2(bits)), "1")
            m == NSub(top, NMod(top, NInt(x.v)))
        IN  BCatSeq([j \in 1..3 |-> Num(bits, IF Odd(m) THEN m ELSE NSub(m, NInt(x.v)))])
Stuck(x) == x.k = "pair" /\ x.a = x.b
Sc(x) ==
  LET id == ToString(<<"rg", x>>) IN
  CASE x.k = "plain" -> Scenario(id, <<Gn(x.bits)>> \o Uses(x.bits, x))
    [] x.k = "size" -> Scenario(id, <<Gn(x.bits)>>)
    [] x.k = "fixed" -> \* a few strings' worth of one repeated byte, then ordinary
        Scenario(id, <<Rng(BRep(x.v, 4 * (x.bits \div 16)), "prng"), Gn(x.bits)>> \o Uses(x.bits, x))
    [] Stuck(x) -> OpenScenario(id, <<Rng(Shape(x), "prng"), [op |-> "rsa.generate", h |-> "k", bits |-> x.bits, stuck |-> TRUE],
                                  [op |-> "rsa.export", h |-> "k", fmt |-> "pkcs1", n |-> 8000, opt |-> TRUE]>>)
    [] OTHER -> Scenario(id, <<Rng(Shape(x), "prng"), Gn(x.bits)>> \o Uses(x.bits, x))
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
