------------------------------- MODULE ApiKex -------------------------------
(* Key agreement: X25519, P-256, P-384, ML-KEM-768.                          *)
EXTENDS SysState, X25519, Ec, MlKem

(***************************************************************************)
(* The system random source.  What it returned during a call is part of the *)
(* observation: e.rng, e.rngcalls, and e.rngfail when it failed.            *)
(***************************************************************************)
RngFailed(e) == Fld(e, "rngfail", FALSE)
RngBytes(e) == Fld(e, "rng", "")
AnyErr(e) == /\ "r" \in DOMAIN e /\ BAscii(e.r) # "" /\ BLen(BAscii(e.r)) > 4 /\ BHead(BAscii(e.r), 4) = "6572723a"
Draws(e, n) == RngBytes(e) # "" /\ BLen(RngBytes(e)) = n

\* ---- X25519
XKey(k) == [t |-> "xpriv", k |-> k]
XGenerate(e) ==
    /\ e.op \in {"x25519.generate", "x25519.sgenerate"}
    /\ IF RngFailed(e) THEN Err(e, "RngFailed") /\ Same
       ELSE /\ Ok(e) /\ Draws(e, 32)
            /\ Obs(e, "pub", X25519Base(RngBytes(e)))
            /\ (e.op = "x25519.sgenerate" => Obs(e, "enc", RngBytes(e)))
            /\ Put(e.h, XKey(RngBytes(e)))
XLoad(e) ==
    /\ e.op = "x25519.load"
    /\ IF BLen(e.k) # 32 THEN Err(e, "WrongLength") /\ Same
       ELSE /\ Ok(e) /\ Obs(e, "pub", X25519Base(e.k)) /\ Obs(e, "enc", e.k)
            /\ Put(e.h, XKey(e.k))
XLoadPub(e) ==
    /\ e.op = "x25519.loadpub"
    /\ IF BLen(e.u) # 32 THEN Err(e, "WrongLength") /\ Same
       ELSE Ok(e) /\ Obs(e, "enc", e.u) /\ Put(e.h, [t |-> "xpub", u |-> e.u])
XDh(e) ==
    /\ e.op = "x25519.dh" /\ Is(e.h, "xpriv") /\ Is(e.peer, "xpub")
    /\ LET z == X25519(objs[e.h].k, objs[e.peer].u)
       IN  IF z = BZero(32) THEN Err(e, "NotOnCurve") ELSE Ok(e) /\ Obs(e, "ss", z) /\ Watched(e, {z})
    /\ IF e.api = "static" THEN Same ELSE Del(e.h)

\* ---- NIST curves
\* the private key that a stream of random candidates determines: the first
\* candidate in range; nothing is drawn after it
RECURSIVE FirstGood(_, _)
FirstGood(c, s) ==
    LET l == Curve(c).len
    IN  IF BLen(s) < l THEN [ok |-> FALSE, k |-> "0", rest |-> s]
        ELSE IF ScalarOk(c, OS2N(BHead(s, l))) THEN [ok |-> TRUE, k |-> OS2N(BHead(s, l)), rest |-> BTail(s, l)]
        ELSE FirstGood(c, BTail(s, l))
MinTries == 8
\* outcome of drawing a scalar: "ok" with k, or "fail"
ScalarDraw(e, c) ==
    LET g == FirstGood(c, RngBytes(e))
    IN  IF RngFailed(e) THEN [r |-> "fail", k |-> "0"]
        ELSE IF g.ok /\ g.rest = "" THEN [r |-> "ok", k |-> g.k]
        ELSE IF ~g.ok /\ Fld(e, "rnglen", 0) >= MinTries * Curve(c).len THEN [r |-> "fail", k |-> "0"]
        ELSE [r |-> "impossible", k |-> "0"]

EcGenerate(e) ==
    /\ e.op \in {"ecdh.generate", "ecdh.sgenerate"}
    /\ LET g == ScalarDraw(e, e.curve)
       IN  CASE g.r = "fail" -> Err(e, "RngFailed") /\ Same
             [] g.r = "ok" ->
                 /\ Ok(e) /\ Obs(e, "pub", EcPub(e.curve, g.k))
                 /\ (e.op = "ecdh.sgenerate" => Obs(e, "enc", N2OS(g.k, Curve(e.curve).len)))
                 /\ Put(e.h, [t |-> "ecpriv", c |-> e.curve, d |-> g.k])
             [] g.r = "impossible" -> FALSE
EcLoad(e) ==
    /\ e.op = "ecdh.load"
    /\ LET d == OS2N(e.k)
       IN  IF ScalarOk(e.curve, d)
           THEN /\ Ok(e) /\ Obs(e, "enc", N2OS(d, Curve(e.curve).len)) /\ Obs(e, "pub", EcPub(e.curve, d))
                /\ Put(e.h, [t |-> "ecpriv", c |-> e.curve, d |-> d])
           ELSE AnyErr(e) /\ Same
EcLoadPub(e) ==
    /\ e.op = "ecdh.loadpub"
    /\ LET p == EcDecode(e.curve, e.pt)
       IN  IF p.ok THEN Ok(e) /\ Obs(e, "enc", e.pt) /\ Put(e.h, [t |-> "ecpub", c |-> e.curve, pt |-> p.pt])
           ELSE AnyErr(e) /\ Same
EcDh(e) ==
    /\ e.op = "ecdh.dh" /\ Is(e.h, "ecpriv") /\ Is(e.peer, "ecpub") /\ objs[e.h].c = objs[e.peer].c
    /\ LET c == objs[e.h].c
                  ss == N2OS(EcMul(c, objs[e.h].d, objs[e.peer].pt)[1], Curve(c).len)
       IN  Ok(e) /\ Obs(e, "ss", ss) /\ Watched(e, {ss})
    /\ IF e.api = "static" THEN Same ELSE Del(e.h)

\* ---- ML-KEM-768
MkTake(e, seed) ==
    LET k == MlKeyGen(seed)
    IN  Ok(e) /\ Obs(e, "ek", k.ek) /\ Obs(e, "dk", k.dk) /\ Put(e.h, [t |-> "mldk", dk |-> k.dk])
MkGenerate(e) ==
    /\ e.op = "mlkem.generate"
    /\ IF RngFailed(e) THEN Err(e, "RngFailed") /\ Same ELSE Draws(e, 64) /\ MkTake(e, RngBytes(e))
MkKeyGen(e) == e.op = "mlkem.keygen" /\ MkTake(e, e.seed)
MkLoadEk(e) ==
    /\ e.op = "mlkem.loadek"
    /\ IF MlEkOk(e.ek) THEN Ok(e) /\ Obs(e, "enc", e.ek) /\ Put(e.h, [t |-> "mlek", ek |-> e.ek])
       ELSE AnyErr(e) /\ Same
MkGive(e, m) == LET r == MlEncaps(objs[e.h].ek, m) IN Ok(e) /\ Obs(e, "ss", r.ss) /\ Obs(e, "ct", r.ct) /\ Watched(e, {r.ss})
MkEncaps(e) ==
    /\ e.op \in {"mlkem.encaps", "mlkem.encapsm"} /\ Is(e.h, "mlek")
    /\ IF e.op = "mlkem.encapsm" THEN MkGive(e, e.m)
       ELSE IF RngFailed(e) THEN Err(e, "RngFailed") ELSE Draws(e, 32) /\ MkGive(e, RngBytes(e))
    /\ Del(e.h)
MkDecaps(e) ==
    /\ e.op = "mlkem.decaps" /\ Is(e.h, "mldk")
    /\ LET ss == MlDecaps(objs[e.h].dk, e.ct) IN Ok(e) /\ Obs(e, "ss", ss) /\ Watched(e, {ss})
    /\ IF e.api = "once" THEN Del(e.h) ELSE Same

RngSet(e) == e.op = "rng.set" /\ Ok(e) /\ Same
RngFill(e) ==
    /\ e.op = "rng.fill"
    /\ IF RngFailed(e) THEN Err(e, "RngFailed")
       ELSE Ok(e) /\ Obs(e, "out", RngBytes(e)) /\ BLen(e.out) = e.n
    /\ Same

KexNext(e) == \/ XGenerate(e) \/ XLoad(e) \/ XLoadPub(e) \/ XDh(e)
              \/ EcGenerate(e) \/ EcLoad(e) \/ EcLoadPub(e) \/ EcDh(e)
              \/ MkGenerate(e) \/ MkKeyGen(e) \/ MkLoadEk(e) \/ MkEncaps(e) \/ MkDecaps(e)
              \/ RngSet(e) \/ RngFill(e)
=============================================================================
