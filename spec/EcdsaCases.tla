------------------------------ MODULE EcdsaCases ------------------------------
(* Keys, messages and crafted signatures shared by the signature generators.    *)
EXTENDS EcCases, Ecdsa, Der
Hashes == <<"sha256", "sha384", "sha512">>
HashN(i) == Hashes[1 + (i % 3)]
Fix(c, d) == IF ScalarOk(c, d) THEN d ELSE "1"
RndScalar(c, l) == NAdd("1", NMod(OS2N(D(<<"sc", c, l>>, L(c) + 8)), NSub(N(c), "1")))
Inv(c, a) == NInvMod(a, N(c))
Mn(c, a, b) == NMulMod(a, b, N(c))
Ehash(c, hash, m) == HashToScalar(c, Hash(hash, m))
PubOf(c, d) == EcEncode(c, EcBase(c, d))
FixedRS(c, r, s) == BCat(N2OS(r, L(c)), N2OS(s, L(c)))
DerRS(r, s) == DSeq(<<DInt(r), DInt(s)>>)
\* a key and signature for message hash e with chosen u1 and R = kG: [Q, r, s]
WithU1(c, e, u1, k) ==
    LET R == EcBase(c, k)  r == NMod(R[1], N(c))  s == Mn(c, e, Inv(c, u1))
        d == Mn(c, NSubMod(k, u1, N(c)), Mn(c, s, Inv(c, r)))
    IN  [Q |-> EcBase(c, d), r |-> r, s |-> s]
\* ... with chosen u2
WithU2(c, e, u2, k) ==
    LET R == EcBase(c, k)  r == NMod(R[1], N(c))  s == Mn(c, r, Inv(c, u2))
        u1 == Mn(c, e, Inv(c, s))
        d == Mn(c, NSubMod(k, u1, N(c)), Inv(c, u2))
    IN  [Q |-> EcBase(c, d), r |-> r, s |-> s]
\* R given as a point whose x is at least n
WithR(c, e, R, s) ==
    LET r == NMod(R[1], N(c))
        ri == Inv(c, r)
    IN  [Q |-> EcAdd(c, EcMul(c, Mn(c, s, ri), R), EcNeg(c, EcBase(c, Mn(c, e, ri)))), r |-> r, s |-> s]
\* randomness that, with key 7 and message "aa" (SHA-256), gives a signature with
\* an r or s of at least 16 leading zero bits (found by search; the outcome is computed)
RareX == [p256 |-> <<"00000000000000000000000000294978", "0000000000000000000000000018b79c", "0000000000000000000000000028fd5e", "000000000000000000000000000dba43", "0000000000000000000000000027f350", "0000000000000000000000000013c2ee", "00000000000000000000000000241bf3", "00000000000000000000000000171caf">>,
          p384 |-> <<"0000000000000000000000000019fe2e", "000000000000000000000000000cf406", "0000000000000000000000000007d7f5", "0000000000000000000000000010d0e1", "0000000000000000000000000008d0d2", "000000000000000000000000000ffa4a", "0000000000000000000000000005a3e2", "0000000000000000000000000019430d">>]
\* ... and with which the first candidate for k is at least n (P-256)
RetryX == "e62d1c21050000000000000000000000"
=============================================================================
