-------------------------------- MODULE ApiRsa --------------------------------
(* RSA keys and signatures.                                                     *)
EXTENDS ApiSign, Rsa

RsaPkcs8Read(b) ==
    LET p == Pkcs8(b, OidRsa, DNull)
        k == RsaPrivRead(p.priv)
    IN  IF ~p.ok THEN NoRsa
        ELSE IF k.v = "no" THEN NoRsa
        ELSE IF p.haspub /\ p.pub # RsaPubDer(k.k.n, k.k.e) THEN NoRsa
        ELSE k
RsLoad(e) ==
    /\ e.op = "rsa.load"
    /\ LET k == IF e.fmt = "pkcs8" THEN RsaPkcs8Read(e.der) ELSE RsaPrivRead(e.der)
       IN  \/ /\ k.v \in {"yes", "may"}
              /\ Ok(e) /\ Obs(e, "len", ModLen(k.k.n))
              /\ Put(e.h, [t |-> "rsask", k |-> k.k, good |-> k.good])
           \/ k.v \in {"no", "may"} /\ AnyErr(e) /\ Same
\* what a generated key is becomes known when it is exported
RsGenerate(e) ==
    /\ e.op = "rsa.generate"
    /\ IF e.bits \notin {2048, 3072, 4096, 6144, 8192} THEN AnyErr(e) /\ Same
       ELSE \/ RngFailed(e) /\ Err(e, "RngFailed") /\ Same
            \/ Fld(e, "stuck", FALSE) /\ Err(e, "RngFailed") /\ Same       \* the source repeats itself
            \/ /\ ~RngFailed(e) /\ Ok(e) /\ Obs(e, "len", e.bits \div 8)
               /\ Put(e.h, [t |-> "rsagen", bits |-> e.bits])
GenPrimeOk(p, bits) == NBits(p) = bits /\ NBit(p, bits - 2) = 1 /\ NIsPrime(p)
GenKeyOk(k, bits) ==
    /\ NBits(k.n) = bits /\ k.e = "10001"
    /\ GenPrimeOk(k.p, bits \div 2) /\ GenPrimeOk(k.q, bits \div 2)
    /\ Consistent(k)
RsReveal(e) ==
    /\ e.op = "rsa.export" /\ Is(e.h, "rsagen") /\ e.fmt = "pkcs1" /\ Ok(e)
    /\ "out" \in DOMAIN e
    /\ LET k == RsaPrivRead(e.out)
       IN  /\ k.v = "yes" /\ GenKeyOk(k.k, objs[e.h].bits)
           /\ Put(e.h, [t |-> "rsask", k |-> k.k, good |-> TRUE])
RsExport(e) ==
    /\ e.op = "rsa.export"
    /\ \/ Is(e.h, "rsask") /\ Write(e, IF e.fmt = "pkcs1" THEN RsaPrivDer(objs[e.h].k) ELSE RsaPkcs8Der(objs[e.h].k))
       \/ Is(e.h, "rsavk") /\ Write(e, IF e.fmt = "pkcs1" THEN RsaPubDer(objs[e.h].n, objs[e.h].e) ELSE RsaSpkiDer(objs[e.h].n, objs[e.h].e))
    /\ Same
RsPub(e) ==
    /\ e.op = "rsa.pub" /\ Is(e.h, "rsask") /\ Ok(e)
    /\ Put(e.to, [t |-> "rsavk", n |-> objs[e.h].k.n, e |-> objs[e.h].k.e])
RsSign(e) ==
    /\ e.op = "rsa.sign" /\ Is(e.h, "rsask")
    /\ LET k == objs[e.h].k
       IN  IF RngFailed(e) \/ e.n < ModLen(k.n) THEN AnyErr(e)
           ELSE \/ ~objs[e.h].good /\ AnyErr(e)
                \/ /\ Ok(e) /\ "out" \in DOMAIN e
                   /\ (e.pad = "pss" => Draws(e, HLen(e.hash)))
                   /\ RsaSigIs(k.n, k.e, e.pad, e.hash, e.m, RngBytes(e), e.out)
    /\ Same
RvLoad(e) ==
    /\ e.op = "rsa.loadpub"
    /\ LET k == RsaPubRead(e.der)
       IN  \/ k.v \in {"yes", "may"} /\ Ok(e) /\ Put(e.h, [t |-> "rsavk", n |-> k.n, e |-> k.e])
           \/ k.v \in {"no", "may"} /\ AnyErr(e) /\ Same
RvVerify(e) ==
    /\ e.op = "rsa.verify" /\ Is(e.h, "rsavk")
    /\ Verdict(e, RsaVerify(objs[e.h].n, objs[e.h].e, e.pad, e.hash, e.m, e.sig)) /\ Same

RsaNext(e) == RsLoad(e) \/ RsGenerate(e) \/ RsReveal(e) \/ RsExport(e) \/ RsPub(e) \/ RsSign(e) \/ RvLoad(e) \/ RvVerify(e)
=============================================================================
