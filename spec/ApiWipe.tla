------------------------------- MODULE ApiWipe -------------------------------
(* What may be left in memory once an object is gone.  Clean (SysState) says   *)
(* that neither the memory an object occupied nor any block freed with it      *)
(* shares eight consecutive bytes with a secret.                               *)
EXTENDS ApiTls, AesKeys

BothEnds(b) == {b, BRev(b)}
\* the hash subkey, as it is and in the doubled form that carry-less
\* multiplication prefers, and its powers
HTwist(h) ==
    LET v == OS2N(h)
        d == NMod(NMul("2", v), NPow2(128))
    IN  IF NBit(v, 127) = 1 THEN BXor(N2OS(d, 16), BCatSeq(<<"c2", BZero(14), "01">>)) ELSE N2OS(d, 16)
RECURSIVE HPowers(_, _, _)
HPowers(h, acc, n) == IF Len(acc) = n THEN acc ELSE HPowers(h, Append(acc, GMul(acc[Len(acc)], h)), n)
GcmSecrets(k) ==
    LET h == AesBlock(k, BZero(16))
        ps == Range(HPowers(h, <<h>>, 8))
    IN  {RoundKeys(k)} \cup UNION {BothEnds(p) \cup BothEnds(HTwist(p)) : p \in ps}
\* the chaining values that stand for the key (and message) in HMAC
HmacSecrets(alg, k, m) ==
    LET kb == HmacKeyBlock(alg, k)
        ib == BXor(kb, BRep(54, BlockLen(alg)))
        ob == BXor(kb, BRep(92, BlockLen(alg)))
    IN  {k, kb, ib, ob, HashMid(alg, ib), HashMid(alg, ob), HashMid(alg, BCat(ib, m))}
EcSecrets(c, d) == BothEnds(N2OS(d, Curve(c).len))
XSecrets(k) == {k, Clamp(k)}
EdSecrets(seed) ==
    LET h == Hash("sha512", seed)
    IN  {seed, Clamp(BHead(h, 32)), BTail(h, 32), N2LE(NMod(LE2N(Clamp(BHead(h, 32))), EdL), 32)}
MlSecrets(dk) == {BHead(dk, 1152), BLast(dk, 32)}
NegInv64(p) == NSub(NPow2(64), NInvMod(NMod(p, NPow2(64)), NPow2(64)))
RsaSecrets(k) ==
    LET w(p) == ((NBits(p) + 63) \div 64) * 64
        mont(x, p) == NMod(NMul(x, NPow2(w(p))), p)
        len(x) == (NBits(x) + 7) \div 8
        ns == {k.p, k.q, k.d, k.dp, k.dq, k.iqmp, mont(k.iqmp, k.p), mont(NPow2(w(k.p)), k.p), mont(NPow2(w(k.q)), k.q)}
    IN  UNION {BothEnds(N2OS(x, len(x))) : x \in ns} \cup {N2LE(NegInv64(k.p), 8), N2LE(NegInv64(k.q), 8)}
TlsKeySecrets(o) ==
    CASE o.kind = "ECDSA" -> EcSecrets(o.c, o.k)
      [] o.kind = "ED25519" -> EdSecrets(o.k)
      [] OTHER -> RsaSecrets(o.k)
BulkSecrets(suite, key) == IF Suites[suite].aead = "gcm" THEN GcmSecrets(key) ELSE {key}

Secrets(o) ==
    CASE o.t = "hmac" -> HmacSecrets(o.alg, o.k, o.msg)
      [] o.t = "aead" -> IF o.alg = "gcm" THEN GcmSecrets(o.k) ELSE {o.k}
      [] o.t = "xpriv" -> XSecrets(o.k)
      [] o.t = "ecpriv" -> EcSecrets(o.c, o.d)
      [] o.t = "ecsk" -> EcSecrets(o.c, o.d)
      [] o.t = "edsk" -> EdSecrets(o.k)
      [] o.t = "mldk" -> MlSecrets(o.dk)
      [] o.t = "rsask" -> RsaSecrets(o.k)
      [] o.t \in {"tlsenc", "tlsdec"} -> BulkSecrets(o.suite, o.key)
      [] o.t = "ticketer" -> TicketSecrets(o.cur) \cup TicketSecrets(o.prev)
      [] o.t = "kx" -> KxSecrets(o)
      [] o.t = "tkey" -> TlsKeySecrets(o)
      [] o.t = "signer" -> TlsKeySecrets(o.k)
      [] OTHER -> {}

WDrop(e) ==
    /\ e.op = "wipe.drop" /\ Has(e.h) /\ Ok(e)
    /\ Clean(e, Secrets(objs[e.h]))
    /\ Del(e.h)
WipeNext(e) == WDrop(e)
=============================================================================
