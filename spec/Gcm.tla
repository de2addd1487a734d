--------------------------------- MODULE Gcm ---------------------------------
(* AES-GCM, NIST SP 800-38D, 96-bit nonces, 128-bit tags.                    *)
EXTENDS Prim

Inc32(ctr) == BCat(BHead(ctr, 12), N2OS(NMod(NAdd(OS2N(BLast(ctr, 4)), "1"), NPow2(32)), 4))

RECURSIVE AesCtr(_, _, _)
AesCtr(k, ctr, n) ==
    IF n <= 0 THEN ""
    ELSE BCat(BHead(AesBlock(k, ctr), Min(n, 16)), AesCtr(k, Inc32(ctr), n - 16))

\* Multiplication in GF(2^128), bits in the order of SP 800-38D 6.3
RECURSIVE GMulLoop(_, _, _, _)
GMulLoop(x, v, z, i) ==
    IF i = 128 THEN z
    ELSE LET z1 == IF NBit(OS2N(x), 127 - i) = 1 THEN BXor(z, v) ELSE z
             sh == N2OS(NShr(OS2N(v), 1), 16)
             v1 == IF NBit(OS2N(v), 0) = 1
                   THEN BXor(sh, BCat("e1", BZero(15))) ELSE sh
         IN  GMulLoop(x, v1, z1, i + 1)
GMul(x, y) == GMulLoop(x, y, BZero(16), 0)

RECURSIVE GHashLoop(_, _, _)
GHashLoop(h, y, data) ==
    IF data = "" THEN y
    ELSE GHashLoop(h, GMul(BXor(y, BHead(data, 16)), h), BTail(data, 16))
GHash(h, data) == GHashLoop(h, BZero(16), data)

GcmTag(k, nonce, aad, ct) ==
    LET h == AesBlock(k, BZero(16))
        j0 == BCat(nonce, "00000001")
        lens == BCat(N2OS(NInt(8 * BLen(aad)), 8), N2OS(NInt(8 * BLen(ct)), 8))
    IN  BXor(AesBlock(k, j0),
             GHash(h, BCatSeq(<<aad, BPad16(aad), ct, BPad16(ct), lens>>)))

\* Messages too long to write out: a prefix of whole blocks, z zero blocks, and
\* a suffix.  Over zero blocks the hash is a power of its key.
RECURSIVE GPow(_, _)
GPow(x, n) ==
    IF n = 0 THEN BCat("80", BZero(15))
    ELSE LET q == TLCEval(GPow(x, n \div 2))  qq == GMul(q, q) IN IF n % 2 = 1 THEN GMul(qq, x) ELSE qq
LongLen(s) == NAdd(NInt(BLen(s.pre) + BLen(s.suf)), NMul(NInt(s.z), "10"))
GHashLong(h, y, s) == GHashLoop(h, GMul(GHashLoop(h, y, s.pre), GPow(h, s.z)), BCat(s.suf, BPad16(s.suf)))
GcmTagLong(k, nonce, a, c) ==
    LET h == AesBlock(k, BZero(16))
        lens == BCat(N2OS(NMul(LongLen(a), "8"), 8), N2OS(NMul(LongLen(c), "8"), 8))
    IN  BXor(AesBlock(k, BCat(nonce, "00000001")), GHashLoop(h, GHashLong(h, GHashLong(h, BZero(16), a), c), lens))
\* n bytes of the key stream from 64-byte block i on
GcmStreamAt(k, nonce, i, n) == AesCtr(k, BCat(nonce, N2OS(NAdd(NMul(NInt(i), "4"), "2"), 4)), n)

GcmCrypt(k, nonce, m) == BXor(m, AesCtr(k, BCat(nonce, "00000002"), BLen(m)))
GcmSeal(k, nonce, aad, pt) ==
    LET ct == GcmCrypt(k, nonce, pt) IN [ct |-> ct, tag |-> GcmTag(k, nonce, aad, ct)]
=============================================================================
