------------------------------- MODULE ApiAead -------------------------------
(* Authenticated encryption: AES-GCM, ChaCha20-Poly1305, XChaCha20-Poly1305.  *)
EXTENDS SysState, Gcm, ChaPoly

AeadSeal(alg, k, nonce, aad, pt) ==
    CASE alg = "gcm" -> GcmSeal(k, nonce, aad, pt)
      [] alg = "chacha" -> ChaSeal(k, nonce, aad, pt)
      [] alg = "xchacha" -> XChaSeal(k, nonce, aad, pt)
AeadTag(alg, k, nonce, aad, ct) ==
    CASE alg = "gcm" -> GcmTag(k, nonce, aad, ct)
      [] alg = "chacha" -> ChaTag(k, nonce, aad, ct)
      [] alg = "xchacha" -> XChaTag(k, nonce, aad, ct)
AeadCrypt(alg, k, nonce, ct) ==
    CASE alg = "gcm" -> GcmCrypt(k, nonce, ct)
      [] alg = "chacha" -> ChaCrypt(k, nonce, ct)
      [] alg = "xchacha" -> XChaCrypt(k, nonce, ct)
\* the only inputs that open are those that sealing produces
AeadOpens(alg, k, nonce, aad, ct, tag) == tag = AeadTag(alg, k, nonce, aad, ct)

AeadKeyLens(alg) == IF alg = "gcm" THEN {16, 32} ELSE {32}

AeadNew(e) ==
    /\ e.op = "aead.new"
    /\ IF BLen(e.k) \in AeadKeyLens(e.alg)
       THEN Ok(e) /\ Put(e.h, [t |-> "aead", alg |-> e.alg, k |-> e.k])
       ELSE Obs(e, "r", "panic") /\ Same               \* documented misuse
AeadSealCall(e) ==
    /\ e.op = "aead.seal" /\ Is(e.h, "aead") /\ Ok(e)
    /\ LET s == AeadSeal(objs[e.h].alg, objs[e.h].k, e.nonce, e.aad, e.pt)
       IN  Obs(e, "ct", s.ct) /\ Obs(e, "tag", s.tag)
    /\ Same
AeadOpenCall(e) ==
    /\ e.op = "aead.open" /\ Is(e.h, "aead")
    /\ LET o == objs[e.h]
       IN  IF AeadOpens(o.alg, o.k, e.nonce, e.aad, e.ct, e.tag)
           THEN Ok(e) /\ Obs(e, "buf", AeadCrypt(o.alg, o.k, e.nonce, e.ct))
           ELSE Err(e, "DecryptFailed") /\ Obs(e, "buf", BZero(BLen(e.ct)))
    /\ Same
\* every single-bit change of nonce, aad, ciphertext and tag, in one step
AeadSweep(e) ==
    /\ e.op = "aead.sweep" /\ Is(e.h, "aead") /\ Ok(e)
    /\ Obs(e, "total", 8 * (BLen(e.nonce) + BLen(e.aad) + BLen(e.ct) + BLen(e.tag)))
    /\ Obs(e, "accepted", << >>) /\ Obs(e, "unwiped", << >>)
    /\ Same
\* Messages of gigabytes: the associated data and the ciphertext are a prefix,
\* zero blocks and a suffix; of the text, 48 bytes are looked at in some places
LongA(e) == [pre |-> e.apre, z |-> e.az, suf |-> e.asuf]
LongC(e) == [pre |-> e.cpre, z |-> e.cz, suf |-> e.csuf]
AeadTagLong(alg, k, nonce, a, c) ==
    CASE alg = "gcm" -> GcmTagLong(k, nonce, a, c)
      [] alg = "chacha" -> ChaTagLong(k, nonce, a, c)
      [] alg = "xchacha" -> ChaTagLong(XSubKey(k, nonce), XSubNonce(nonce), a, c)
AeadStreamAt(alg, k, nonce, i, n) ==
    CASE alg = "gcm" -> GcmStreamAt(k, nonce, i, n)
      [] alg = "chacha" -> ChaStreamAt(k, nonce, i, n)
      [] alg = "xchacha" -> ChaStreamAt(XSubKey(k, nonce), XSubNonce(nonce), i, n)
AeadLongSeal(e) ==
    /\ e.op = "aead.longseal" /\ Is(e.h, "aead") /\ Ok(e)
    /\ LET o == objs[e.h]  ct == AeadCrypt(o.alg, o.k, e.nonce, e.pt)
       IN  Obs(e, "ct", ct) /\ Obs(e, "tag", AeadTagLong(o.alg, o.k, e.nonce, LongA(e), [pre |-> "", z |-> 0, suf |-> ct]))
    /\ Same
AeadLongOpen(e) ==
    /\ e.op = "aead.longopen" /\ Is(e.h, "aead")
    /\ LET o == objs[e.h]
       IN  IF e.tag = AeadTagLong(o.alg, o.k, e.nonce, LongA(e), LongC(e))
           THEN Ok(e) /\ Obs(e, "head", BXor(e.cpre, AeadStreamAt(o.alg, o.k, e.nonce, 0, BLen(e.cpre))))
                      /\ Obs(e, "got", [j \in 1..Len(e.at) |-> AeadStreamAt(o.alg, o.k, e.nonce, e.at[j], 48)])
           ELSE Err(e, "DecryptFailed") /\ Obs(e, "got", [j \in 1..Len(e.at) |-> BZero(48)])
                      /\ Obs(e, "head", BZero(BLen(e.cpre)))
    /\ Same
\* sealing zeros and opening the result again
AeadLongRound(e) ==
    /\ e.op = "aead.longround" /\ Is(e.h, "aead") /\ Ok(e)
    /\ LET o == objs[e.h]
       IN  Obs(e, "got", [j \in 1..Len(e.at) |-> AeadStreamAt(o.alg, o.k, e.nonce, e.at[j], 48)])
    /\ Obs(e, "opened", TRUE) /\ Obs(e, "zero", TRUE)
    /\ Same
AeadNext(e) == AeadLongSeal(e) \/ AeadLongOpen(e) \/ AeadLongRound(e) \/ AeadNew(e) \/ AeadSealCall(e) \/ AeadOpenCall(e) \/ AeadSweep(e)
=============================================================================
