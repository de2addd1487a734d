--------------------------------- MODULE MlKem ---------------------------------
(* ML-KEM-768 (FIPS 203).  Polynomials are sequences of 256 integers below q;    *)
(* index i of the standard is i + 1 here.  The NTT is given by its definition    *)
(* (evaluation modulo X^2 - gamma) rather than by the butterfly algorithm.       *)
EXTENDS Prim, Integers, Sequences, SequencesExt

MlQ == 3329
MlK == 3
RECURSIVE PowQ(_, _)
PowQ(b, e) == IF e = 0 THEN 1 ELSE LET h == PowQ((b * b) % MlQ, e \div 2) IN IF e % 2 = 1 THEN (h * b) % MlQ ELSE h
RECURSIVE BitRev(_, _)
BitRev(i, n) == IF n = 0 THEN 0 ELSE (i % 2) * 2 ^ (n - 1) + BitRev(i \div 2, n - 1)
Gamma(i) == PowQ(17, 2 * BitRev(i, 7) + 1)
RECURSIVE SumQ(_, _, _)
SumQ(f(_), lo, hi) == IF lo > hi THEN 0 ELSE (f(lo) + SumQ(f, lo + 1, hi)) % MlQ
PolyAdd(a, b) == [i \in 1..256 |-> (a[i] + b[i]) % MlQ]
PolySub(a, b) == [i \in 1..256 |-> (a[i] + MlQ - b[i]) % MlQ]
\* sum of f[2j + r] * g^j, Horner
RECURSIVE Eval(_, _, _, _, _)
Eval(f, r, g, j, acc) == IF j < 0 THEN acc ELSE Eval(f, r, g, j - 1, (acc * g + f[2 * j + r + 1]) % MlQ)
MlNtt(f) == [x \in 1..256 |-> Eval(f, (x - 1) % 2, Gamma((x - 1) \div 2), 127, 0)]
\* f[2j + r] = 128^-1 * sum over i of F[2i + r] * gamma_i^-j
RECURSIVE InvSum(_, _, _, _, _)
InvSum(F, r, j, i, acc) ==
    IF i < 0 THEN acc
    ELSE InvSum(F, r, j, i - 1, (acc + F[2 * i + r + 1] * PowQ(Gamma(i), 3328 * 128 - j)) % MlQ)
MlInvNtt(F) == [x \in 1..256 |-> (3303 * InvSum(F, (x - 1) % 2, (x - 1) \div 2, 127, 0)) % MlQ]
\* multiplication modulo X^2 - gamma_i
MlMul(F, G) == [x \in 1..256 |->
    LET i == (x - 1) \div 2  a0 == F[2 * i + 1]  a1 == F[2 * i + 2]  b0 == G[2 * i + 1]  b1 == G[2 * i + 2]
    IN  IF x % 2 = 1 THEN (a0 * b0 + ((a1 * b1) % MlQ) * Gamma(i)) % MlQ ELSE (a0 * b1 + a1 * b0) % MlQ]
Dot(u, v) == PolyAdd(PolyAdd(MlMul(u[1], v[1]), MlMul(u[2], v[2])), MlMul(u[3], v[3]))

\* Algorithms 5 and 6 on little-endian bit strings
RECURSIVE MlPackR(_, _, _, _)
MlPackR(f, d, i, acc) == IF i = 0 THEN acc ELSE MlPackR(f, d, i - 1, NAdd(NMul(acc, NPow2(d)), NInt(f[i])))
MlPack(f, d, n) == MlPackR(f, d, n, "0")
MlEncode(d, f) == N2LE(MlPack(f, d, 256), 32 * d)
MlDecode(d, b) == LET v == LE2N(b) IN [i \in 1..256 |-> NToInt(NMod(NShr(v, d * (i - 1)), NPow2(d))) % (IF d = 12 THEN MlQ ELSE 2 ^ d)]
Compress(d, x) == (((2 ^ (d + 1) * x + MlQ) \div (2 * MlQ))) % 2 ^ d
Decompress(d, y) == (2 * MlQ * y + 2 ^ d) \div 2 ^ (d + 1)
MapPoly(Op(_), f) == [i \in 1..256 |-> Op(f[i])]

\* Algorithm 7: rejection sampling from SHAKE128
RECURSIVE Accept(_, _, _)
Accept(b, i, acc) ==
    IF Len(acc) >= 256 \/ i + 3 > BLen(b) THEN acc
    ELSE LET c0 == BAt(b, i)  c1 == BAt(b, i + 1)  c2 == BAt(b, i + 2)
             d1 == c0 + 256 * (c1 % 16)  d2 == (c1 \div 16) + 16 * c2
             a1 == IF d1 < MlQ THEN Append(acc, d1) ELSE acc
             a2 == IF d2 < MlQ /\ Len(a1) < 256 THEN Append(a1, d2) ELSE a1
         IN  Accept(b, i + 3, a2)
SampleNtt(seed) == Accept(Xof("shake128", seed, 168 * 8), 0, << >>)
MlA(rho, i, j) == SampleNtt(BCatSeq(<<rho, BOf(<<j, i>>)>>))      \* A[i, j], 0-based
\* Algorithm 8, eta = 2
Bits4(b, i) == (IF i % 2 = 0 THEN BAt(b, i \div 2) % 16 ELSE BAt(b, i \div 2) \div 16)
Cbd2(b) == [i \in 1..256 |-> LET v == Bits4(b, i - 1) IN ((v % 2) + ((v \div 2) % 2) + MlQ - ((v \div 4) % 2) - (v \div 8)) % MlQ]
Noise(s, n) == Cbd2(Xof("shake256", BCat(s, BOf(<<n>>)), 128))

\* Algorithms 13 to 15
PkeKeyGen(d) ==
    LET g == Hash("sha3_512", BCat(d, BOf(<<MlK>>)))
        rho == BHead(g, 32)  sg == BTail(g, 32)
        s == [i \in 1..3 |-> MlNtt(Noise(sg, i - 1))]
        e == [i \in 1..3 |-> MlNtt(Noise(sg, i + 2))]
        t == [i \in 1..3 |-> PolyAdd(Dot([j \in 1..3 |-> MlA(rho, i - 1, j - 1)], s), e[i])]
    IN  [ek |-> BCatSeq(<<MlEncode(12, t[1]), MlEncode(12, t[2]), MlEncode(12, t[3]), rho>>),
         dk |-> BCatSeq([i \in 1..3 |-> MlEncode(12, s[i])])]
PkeEncrypt(ek, m, r) ==
    LET rho == BTail(ek, 1152)
        t == [i \in 1..3 |-> MlDecode(12, BSub(ek, 384 * (i - 1), 384))]
        y == [i \in 1..3 |-> MlNtt(Noise(r, i - 1))]
        u == [i \in 1..3 |-> PolyAdd(MlInvNtt(Dot([j \in 1..3 |-> MlA(rho, j - 1, i - 1)], y)), Noise(r, i + 2))]
        mu == MapPoly(LAMBDA x : Decompress(1, x), MlDecode(1, m))
        v == PolyAdd(PolyAdd(MlInvNtt(Dot(t, y)), Noise(r, 6)), mu)
    IN  BCatSeq([i \in 1..3 |-> MlEncode(10, MapPoly(LAMBDA x : Compress(10, x), u[i]))] \o <<MlEncode(4, MapPoly(LAMBDA x : Compress(4, x), v))>>)
PkeDecrypt(dk, c) ==
    LET u == [i \in 1..3 |-> MapPoly(LAMBDA x : Decompress(10, x), MlDecode(10, BSub(c, 320 * (i - 1), 320)))]
        v == MapPoly(LAMBDA x : Decompress(4, x), MlDecode(4, BTail(c, 960)))
        s == [i \in 1..3 |-> MlDecode(12, BSub(dk, 384 * (i - 1), 384))]
        w == PolySub(v, MlInvNtt(Dot(s, [i \in 1..3 |-> MlNtt(u[i])])))
    IN  MlEncode(1, MapPoly(LAMBDA x : Compress(1, x), w))

\* Algorithms 16 to 18
MlKeyGen(seed) ==
    LET k == PkeKeyGen(BHead(seed, 32))
    IN  [ek |-> k.ek, dk |-> BCatSeq(<<k.dk, k.ek, Hash("sha3_256", k.ek), BTail(seed, 32)>>)]
MlEncaps(ek, m) ==
    LET g == Hash("sha3_512", BCat(m, Hash("sha3_256", ek)))
    IN  [ss |-> BHead(g, 32), ct |-> PkeEncrypt(ek, m, BTail(g, 32))]
MlDecaps(dk, c) ==
    LET dkp == BHead(dk, 1152)  ek == BSub(dk, 1152, 1184)  h == BSub(dk, 2336, 32)  z == BSub(dk, 2368, 32)
        m == PkeDecrypt(dkp, c)
        g == Hash("sha3_512", BCat(m, h))
    IN  IF PkeEncrypt(ek, m, BTail(g, 32)) = c THEN BHead(g, 32) ELSE Xof("shake256", BCat(z, c), 32)
\* 7.2: the modulus check
MlCoef(b, i) == LET o == 3 * (i \div 2) IN IF i % 2 = 0 THEN BAt(b, o) + 256 * (BAt(b, o + 1) % 16) ELSE (BAt(b, o + 1) \div 16) + 16 * BAt(b, o + 2)
MlEkOk(ek) == BLen(ek) = 1184 /\ \A i \in 0..767 : MlCoef(ek, i) < MlQ
=============================================================================
