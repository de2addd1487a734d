---------------------------------- MODULE Ec ----------------------------------
(* NIST P-256 and P-384 (FIPS 186-4 D.1.2, SEC 1).  A point is <<x, y>> with  *)
(* naturals, or <<>> for the point at infinity.                               *)
EXTENDS Prim

Inf == <<>>
P256c == [
  p |-> "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
  n |-> "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
  b |-> "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
  g |-> << "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
           "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5" >>,
  len |-> 32 ]
P384c == [
  p |-> "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
  n |-> "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
  b |-> "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
  g |-> << "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
           "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f" >>,
  len |-> 48 ]
Curve(c) == IF c = "p256" THEN P256c ELSE P384c

\* affine group law on y^2 = x^3 - 3x + b
EcAddP(P, Q, p) ==
    IF P = Inf THEN Q
    ELSE IF Q = Inf THEN P
    ELSE IF P[1] = Q[1] /\ (P[2] # Q[2] \/ P[2] = "0") THEN Inf
    ELSE LET l == IF P = Q
                  THEN NMulMod(NSubMod(NMulMod("3", NMulMod(P[1], P[1], p), p), "3", p),
                               NInvMod(NMulMod("2", P[2], p), p), p)
                  ELSE NMulMod(NSubMod(Q[2], P[2], p), NInvMod(NSubMod(Q[1], P[1], p), p), p)
             x == NSubMod(NSubMod(NMulMod(l, l, p), P[1], p), Q[1], p)
         IN  << x, NSubMod(NMulMod(l, NSubMod(P[1], x, p), p), P[2], p) >>

RECURSIVE EcMulLoop(_, _, _, _, _)
EcMulLoop(k, P, p, i, acc) ==
    IF i < 0 THEN acc
    ELSE LET d == EcAddP(acc, acc, p)
         IN  EcMulLoop(k, P, p, i - 1, IF NBit(k, i) = 1 THEN EcAddP(d, P, p) ELSE d)
EcMulP(k, P, p) == EcMulLoop(k, P, p, NBits(k) - 1, Inf)

EcMul(c, k, P) == EcMulP(k, P, Curve(c).p)
EcAdd(c, P, Q) == EcAddP(P, Q, Curve(c).p)
EcNeg(c, P) == IF P = Inf THEN Inf ELSE << P[1], NSubMod("0", P[2], Curve(c).p) >>
EcBase(c, k) == EcMul(c, k, Curve(c).g)

EcRhs(c, x) ==
    LET p == Curve(c).p
    IN  NAddMod(NSubMod(NMulMod(NMulMod(x, x, p), x, p), NMulMod("3", x, p), p), Curve(c).b, p)
\* canonical coordinates satisfying the curve equation
OnCurve(c, P) ==
    LET p == Curve(c).p
    IN  /\ NLt(P[1], p) /\ NLt(P[2], p)
        /\ NMulMod(P[2], P[2], p) = EcRhs(c, P[1])
\* both primes are 3 mod 4
EcSqrt(c, v) ==
    LET p == Curve(c).p IN NPowMod(v, NShr(NAdd(p, "1"), 2), p)
EcHasY(c, x) ==
    LET p == Curve(c).p  y == EcSqrt(c, EcRhs(c, x)) IN NMulMod(y, y, p) = EcRhs(c, x)
EcLift(c, x) == << x, EcSqrt(c, EcRhs(c, x)) >>

EcEncode(c, P) == BCatSeq(<<"04", N2OS(P[1], Curve(c).len), N2OS(P[2], Curve(c).len)>>)
\* SEC 1 uncompressed decoding: [ok, err, pt]
EcDecode(c, b) ==
    LET l == Curve(c).len
        pt == << OS2N(BSub(b, 1, l)), OS2N(BSub(b, 1 + l, l)) >>
    IN  IF BLen(b) # 1 + 2 * l THEN [ok |-> FALSE, pt |-> Inf]
        ELSE IF BAt(b, 0) # 4 THEN [ok |-> FALSE, pt |-> Inf]
        ELSE IF ~OnCurve(c, pt) THEN [ok |-> FALSE, pt |-> Inf]
        ELSE [ok |-> TRUE, pt |-> pt]
EcPub(c, d) == EcEncode(c, EcBase(c, d))
ScalarOk(c, k) == k # "0" /\ NLt(k, Curve(c).n)
=============================================================================
