-------------------------------- MODULE Ecdsa --------------------------------
(* ECDSA (FIPS 186-5 6.4) with RFC 6979 nonces, extra input per section 3.6. *)
EXTENDS Ec, Hmac

\* bits2int for these curves (bit lengths are multiples of 8): leftmost bytes
HashToInt(c, h) == OS2N(BHead(h, Min(BLen(h), Curve(c).len)))
HashToScalar(c, h) == NMod(HashToInt(c, h), Curve(c).n)

\* candidates drawn from the DRBG until one is in 1..n-1 and gives r # 0
RECURSIVE NonceFrom(_, _, _, _)
NonceFrom(c, alg, st, tries) ==
    LET g == DrbgGenerate(alg, st, Curve(c).len)
        k == OS2N(g.out)
    IN  IF ScalarOk(c, k) THEN k ELSE NonceFrom(c, alg, g.st, tries + 1)

EcdsaNonce(c, alg, d, h, extra) ==
    LET l == Curve(c).len
    IN  NonceFrom(c, alg, DrbgInit(alg, N2OS(d, l), N2OS(HashToScalar(c, h), l), extra), 0)

EcdsaSignWith(c, d, h, k) ==
    LET n == Curve(c).n
        r == NMod(EcBase(c, k)[1], n)
        s == NMulMod(NInvMod(k, n), NAddMod(HashToScalar(c, h), NMulMod(r, d, n), n), n)
    IN  [r |-> r, s |-> s]
EcdsaSign(c, alg, d, h, extra) == EcdsaSignWith(c, d, h, EcdsaNonce(c, alg, d, h, extra))

EcdsaVerify(c, Q, h, r, s) ==
    LET n == Curve(c).n
        w == NInvMod(s, n)
        u1 == NMulMod(HashToScalar(c, h), w, n)
        u2 == NMulMod(r, w, n)
        R == EcAdd(c, EcBase(c, u1), EcMul(c, u2, Q))
    IN  ScalarOk(c, r) /\ ScalarOk(c, s) /\ R # Inf /\ NMod(R[1], n) = r

FixedSig(c, sg) == BCat(N2OS(sg.r, Curve(c).len), N2OS(sg.s, Curve(c).len))
=============================================================================
