-------------------------------- MODULE Hmac --------------------------------
(* HMAC (RFC 2104 / FIPS 198-1), TLS 1.2 PRF (RFC 5246 s5), HKDF (RFC 5869), *)
(* HMAC_DRBG as used by RFC 6979.                                            *)
EXTENDS Prim

BlockLen(alg) == CASE alg = "sha256" -> 64 [] alg \in {"sha384", "sha512"} -> 128
OutLen(alg) == CASE alg = "sha256" -> 32 [] alg = "sha384" -> 48 [] alg = "sha512" -> 64

HmacKeyBlock(alg, k) ==
    LET kk == IF BLen(k) > BlockLen(alg) THEN Hash(alg, k) ELSE k
    IN  BCat(kk, BZero(BlockLen(alg) - BLen(kk)))

HMAC(alg, k, m) ==
    LET kb == HmacKeyBlock(alg, k)
        ipad == BXor(kb, BRep(54, BlockLen(alg)))
        opad == BXor(kb, BRep(92, BlockLen(alg)))
    IN  Hash(alg, BCat(opad, Hash(alg, BCat(ipad, m))))

\* P_hash of RFC 5246 section 5, first n bytes
RECURSIVE PHash(_, _, _, _, _)
PHash(alg, secret, seed, a, n) ==
    IF n <= 0 THEN ""
    ELSE LET blk == HMAC(alg, secret, BCat(a, seed))
         IN  BCat(BHead(blk, Min(n, BLen(blk))),
                  PHash(alg, secret, seed, HMAC(alg, secret, a), n - BLen(blk)))

Tls12Prf(alg, secret, label, seed, n) ==
    LET ls == BCat(label, seed) IN PHash(alg, secret, ls, HMAC(alg, secret, ls), n)

HkdfExtract(alg, salt, ikm) == HMAC(alg, salt, ikm)
RECURSIVE HkdfBlocks(_, _, _, _, _, _)
HkdfBlocks(alg, prk, info, prev, i, n) ==
    IF n <= 0 THEN ""
    ELSE LET t == HMAC(alg, prk, BCatSeq(<<prev, info, BOf(<<i>>)>>))
         IN  BCat(BHead(t, Min(n, BLen(t))), HkdfBlocks(alg, prk, info, t, i + 1, n - BLen(t)))
HkdfExpand(alg, prk, info, n) == HkdfBlocks(alg, prk, info, "", 1, n)

(***************************************************************************)
(* HMAC_DRBG state [K, V] (RFC 6979 section 3.2 b-h, 3.6).                  *)
(***************************************************************************)
DrbgUpdate(alg, st, data) ==
    LET k1 == HMAC(alg, st.K, BCatSeq(<<st.V, "00", data>>))
        v1 == HMAC(alg, k1, st.V)
    IN  IF data = "" THEN [K |-> k1, V |-> v1]
        ELSE LET k2 == HMAC(alg, k1, BCatSeq(<<v1, "01", data>>))
             IN  [K |-> k2, V |-> HMAC(alg, k2, v1)]

DrbgInit(alg, entropy, nonce, pers) ==
    DrbgUpdate(alg, [K |-> BZero(OutLen(alg)), V |-> BRep(1, OutLen(alg))],
               BCatSeq(<<entropy, nonce, pers>>))

\* n bytes of output; result is [out, st]
RECURSIVE DrbgBytes(_, _, _)
DrbgBytes(alg, st, n) ==
    LET v == HMAC(alg, st.K, st.V)
        st1 == [st EXCEPT !.V = v]
    IN  IF n <= BLen(v) THEN [out |-> BHead(v, n), st |-> st1]
        ELSE LET r == DrbgBytes(alg, st1, n - BLen(v))
             IN  [out |-> BCat(v, r.out), st |-> r.st]

DrbgGenerate(alg, st, n) ==
    LET r == DrbgBytes(alg, st, n)
    IN  [out |-> r.out, st |-> DrbgUpdate(alg, r.st, "")]
=============================================================================
