------------------------------- MODULE ApiHash -------------------------------
(* Incremental hashing, SHA-3/SHAKE, HMAC: what a caller may observe.         *)
EXTENDS SysState, Hmac

(* A hash context is the message absorbed so far, as <<chunk, count>> pairs   *)
(* when it is too long to write out.                                          *)
HashNew(e) ==
    /\ e.op = "hash.new" /\ Ok(e)
    /\ Put(e.h, [t |-> "hash", alg |-> e.alg, msg |-> "", rep |-> << >>])
HashUpdate(e) ==
    /\ e.op = "hash.update" /\ Is(e.h, "hash") /\ Ok(e)
    /\ Put(e.h, IF objs[e.h].rep = << >>
                THEN [objs[e.h] EXCEPT !.msg = BCat(@, e.m)]
                ELSE [objs[e.h] EXCEPT !.rep = Append(@, <<e.m, 1>>)])
HashUpdateRep(e) ==
    /\ e.op = "hash.updaterep" /\ Is(e.h, "hash") /\ Ok(e)
    /\ Put(e.h, [objs[e.h] EXCEPT !.rep = @ \o << <<objs[e.h].msg, 1>>, <<e.m, e.per * e.times>> >>,
                                  !.msg = ""])
Digest(o) == IF o.rep = << >> THEN Hash(o.alg, o.msg) ELSE HashRep(o.alg, o.rep)
HashClone(e) ==
    /\ e.op = "hash.clone" /\ Is(e.h, "hash") /\ Ok(e)
    /\ Put(e.to, objs[e.h])
HashFinish(e) ==
    /\ e.op = "hash.finish" /\ Is(e.h, "hash") /\ Ok(e)
    /\ Obs(e, "out", Digest(objs[e.h]))
    /\ Del(e.h)
HashForkFinish(e) ==
    /\ e.op = "hash.forkfinish" /\ Is(e.h, "hash") /\ Ok(e)
    /\ Obs(e, "out", Digest(objs[e.h]))
    /\ Same
HashOneShot(e) ==
    /\ e.op = "hash.oneshot" /\ Ok(e)
    /\ Obs(e, "out", Hash(e.alg, e.m))
    /\ Same
HashEqual(e) ==
    /\ e.op = "hash.equal"
    /\ IF e.trunc > BLen(e.v) THEN Obs(e, "r", "panic")    \* documented misuse
       ELSE /\ Ok(e)
            /\ Obs(e, "eq", e.other = (IF e.trunc = 0 THEN e.v ELSE BHead(e.v, e.trunc)))
    /\ Same
HashCmp(e) ==
    /\ e.op = "hash.cmp" /\ Ok(e)
    /\ Obs(e, "eq", e.alg = e.alg2 /\ e.v = e.other)
    /\ Same

Sha3New(e) ==
    /\ e.op = "sha3.new" /\ Ok(e) /\ Put(e.h, [t |-> "sha3", alg |-> e.alg, msg |-> ""])
Sha3Update(e) ==
    /\ e.op = "sha3.update" /\ Is(e.h, "sha3") /\ Ok(e)
    /\ Put(e.h, [objs[e.h] EXCEPT !.msg = BCat(@, e.m)])
Sha3Finish(e) ==
    /\ e.op = "sha3.finish" /\ Is(e.h, "sha3") /\ Ok(e)
    /\ Obs(e, "out", Hash(objs[e.h].alg, objs[e.h].msg))
    /\ Del(e.h)
XofNew(e) ==
    /\ e.op = "xof.new" /\ Ok(e)
    /\ Put(e.h, [t |-> "xof", alg |-> e.alg, msg |-> BCatSeq(e.parts), pos |-> 0])
XofRead(e) ==
    /\ e.op = "xof.read" /\ Is(e.h, "xof") /\ Ok(e)
    /\ LET o == objs[e.h]
       IN  Obs(e, "out", BSub(Xof(o.alg, o.msg, o.pos + e.n), o.pos, e.n))
    /\ Put(e.h, [objs[e.h] EXCEPT !.pos = @ + e.n])

HmacNew(e) ==
    /\ e.op = "hmac.new" /\ Ok(e)
    /\ Put(e.h, [t |-> "hmac", alg |-> e.alg, k |-> e.k, msg |-> ""])
HmacUpdate(e) ==
    /\ e.op = "hmac.update" /\ Is(e.h, "hmac") /\ Ok(e)
    /\ Put(e.h, [objs[e.h] EXCEPT !.msg = BCat(@, e.m)])
HmacClone(e) ==
    /\ e.op = "hmac.clone" /\ Is(e.h, "hmac") /\ Ok(e) /\ Put(e.to, objs[e.h])
HmacOf(o) == HMAC(o.alg, o.k, o.msg)
HmacFinish(e) ==
    /\ e.op = "hmac.finish" /\ Is(e.h, "hmac") /\ Ok(e)
    /\ Obs(e, "out", HmacOf(objs[e.h]))
    /\ Del(e.h)
HmacVerify(e) ==
    /\ e.op = "hmac.verify" /\ Is(e.h, "hmac")
    /\ IF e.tag = HmacOf(objs[e.h]) THEN Ok(e) ELSE Err(e, "BadSignature")
    /\ Del(e.h)
\* the TLS provider's PRF is RFC 5246's, built on the provider's HMAC
HmacTls(e) ==
    /\ e.op = "hmac.tls" /\ Ok(e)
    /\ Obs(e, "out", Tls12Prf(e.alg, e.k, e.label, e.seed, e.n))
    /\ Same

HashNext(e) ==
    \/ HashNew(e) \/ HashUpdate(e) \/ HashUpdateRep(e) \/ HashClone(e) \/ HashFinish(e)
    \/ HashForkFinish(e) \/ HashOneShot(e) \/ HashEqual(e) \/ HashCmp(e)
    \/ Sha3New(e) \/ Sha3Update(e) \/ Sha3Finish(e) \/ XofNew(e) \/ XofRead(e)
    \/ HmacNew(e) \/ HmacUpdate(e) \/ HmacClone(e) \/ HmacFinish(e) \/ HmacVerify(e)
    \/ HmacTls(e)
=============================================================================
