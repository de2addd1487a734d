------------------------------- MODULE ChaPoly -------------------------------
(* ChaCha20-Poly1305 (RFC 8439) and XChaCha20-Poly1305.                      *)
EXTENDS Prim

P1305 == NSub(NPow2(130), "5")
RClamp(k) == LE2N(BAnd(BHead(k, 16), BRev("0ffffffc0ffffffc0ffffffc0fffffff")))

RECURSIVE PolyLoop(_, _, _)
PolyLoop(a, r, m) ==
    IF m = "" THEN a
    ELSE LET c == BHead(m, Min(16, BLen(m)))
             n == LE2N(BCat(c, "01"))
         IN  PolyLoop(NMulMod(NAdd(a, n), r, P1305), r, BTail(m, BLen(c)))

Poly1305Acc(key, msg) ==
    N2LE(NMod(NAdd(PolyLoop("0", RClamp(key), msg), LE2N(BTail(key, 16))), NPow2(128)), 16)

ChaTag(k, nonce, aad, ct) ==
    Poly1305Acc(ChaChaStream(k, 0, nonce, 32),
        BCatSeq(<<aad, BPad16(aad), ct, BPad16(ct),
                  N2LE(NInt(BLen(aad)), 8), N2LE(NInt(BLen(ct)), 8)>>))
ChaCrypt(k, nonce, m) == BXor(m, ChaChaStream(k, 1, nonce, BLen(m)))
ChaSeal(k, nonce, aad, pt) ==
    LET ct == ChaCrypt(k, nonce, pt) IN [ct |-> ct, tag |-> ChaTag(k, nonce, aad, ct)]

\* Messages too long to write out (as in Gcm): over z zero blocks the accumulator
\* is a r^z + 2^128 (r + r^2 + ... + r^z)
PolyZeros(a, r, z) ==
    LET rz == NPowMod(r, NInt(z), P1305)
        geo == IF r = "1" THEN NInt(z)
               ELSE NMulMod(NMul(r, NSub(NAdd(rz, P1305), "1")), NInvMod(NSub(NAdd(r, P1305), "1"), P1305), P1305)
    IN  NMod(NAdd(NMul(a, rz), NMul(NPow2(128), geo)), P1305)
PolyLong(a, r, s) == PolyLoop(PolyZeros(PolyLoop(a, r, s.pre), r, s.z), r, BCat(s.suf, BPad16(s.suf)))
PolyLongLen(s) == NAdd(NInt(BLen(s.pre) + BLen(s.suf)), NMul(NInt(s.z), "10"))
ChaTagLong(k, nonce, a, c) ==
    LET key == ChaChaStream(k, 0, nonce, 32)  r == RClamp(key)
        lens == BCat(N2LE(PolyLongLen(a), 8), N2LE(PolyLongLen(c), 8))
        acc == PolyLoop(PolyLong(PolyLong("0", r, a), r, c), r, lens)
    IN  N2LE(NMod(NAdd(acc, LE2N(BTail(key, 16))), NPow2(128)), 16)
ChaStreamAt(k, nonce, i, n) == ChaChaStream(k, 1 + i, nonce, n)

XSubKey(k, nonce) == HChaCha(k, BHead(nonce, 16))
XSubNonce(nonce) == BCat("00000000", BTail(nonce, 16))
XChaSeal(k, nonce, aad, pt) == ChaSeal(XSubKey(k, nonce), XSubNonce(nonce), aad, pt)
XChaCrypt(k, nonce, m) == ChaCrypt(XSubKey(k, nonce), XSubNonce(nonce), m)
XChaTag(k, nonce, aad, ct) == ChaTag(XSubKey(k, nonce), XSubNonce(nonce), aad, ct)
=============================================================================
