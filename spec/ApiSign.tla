------------------------------- MODULE ApiSign -------------------------------
(* Signing and verification: ECDSA over P-256 and P-384, Ed25519.             *)
EXTENDS ApiKex, Ecdsa, Ed25519, Der

\* ---- key containers; v: "yes" must load as k, "may", or "no" must be refused
KNo == [v |-> "no", k |-> "0"]
\* a public key carried next to the private key
PubMatch(c, d, b) ==
    LET u == EcPub(c, d)  l == Curve(c).len
    IN  IF b = u THEN "yes"
        ELSE IF BLen(b) = l + 1 /\ BTail(b, 1) = BSub(u, 1, l) /\ BAt(b, 0) = 2 + (BAt(u, 2 * l) % 2) THEN "may"
        ELSE "no"
Meet(S) == IF "no" \in S THEN "no" ELSE IF "may" \in S THEN "may" ELSE "yes"
Sec1Key(c, b) ==
    LET s == DReadSeq(b)
        it == s.v
        hasP == DTag(it, 3) = 160
        j == IF hasP THEN 4 ELSE 3
        hasQ == DTag(it, j) = 161
        q == DItems(it[j].body)
        d == OS2N(it[2].body)
    IN  IF ~s.ok THEN KNo
        ELSE IF Len(it) < 2 THEN KNo
        ELSE IF ~(DIsNat(it[1]) /\ DNat(it[1]) = "1" /\ it[2].tag = 4) THEN KNo
        ELSE IF Len(it) # (IF hasQ THEN j ELSE j - 1) THEN KNo
        ELSE IF hasP /\ it[3].body # DOid(OidCurve(c)) THEN KNo
        ELSE IF ~ScalarOk(c, d) THEN KNo
        ELSE IF hasQ /\ ~(q.ok /\ Len(q.v) = 1) THEN KNo
        ELSE IF hasQ /\ ~DIsBits(q.v[1], 3) THEN KNo
        ELSE [v |-> Meet({IF BLen(it[2].body) = Curve(c).len THEN "yes" ELSE "may",
                          IF hasQ THEN PubMatch(c, d, BTail(q.v[1].body, 1)) ELSE "yes"}), k |-> d]

\* PKCS#8 (RFC 5958) without attributes: [ok, priv, pub]; params is the exact
\* encoding required after the algorithm OID
Pkcs8(b, oid, params) ==
    LET s == DReadSeq(b)
        it == s.v
        no == [ok |-> FALSE, priv |-> "", haspub |-> FALSE, pub |-> ""]
    IN  IF ~s.ok THEN no
        ELSE IF Len(it) \notin {3, 4} THEN no
        ELSE IF ~(DIsNat(it[1]) /\ it[2].tag = 48 /\ it[3].tag = 4) THEN no
        ELSE IF it[2].body # BCat(DOid(oid), params) THEN no
        ELSE IF Len(it) = 3 THEN (IF DNat(it[1]) = "0" THEN [ok |-> TRUE, priv |-> it[3].body, haspub |-> FALSE, pub |-> ""] ELSE no)
        ELSE IF DNat(it[1]) # "1" \/ ~DIsBits(it[4], 129) THEN no
        ELSE [ok |-> TRUE, priv |-> it[3].body, haspub |-> TRUE, pub |-> BTail(it[4].body, 1)]
EcPkcs8Key(c, b) ==
    LET p == Pkcs8(b, OidEc, DOid(OidCurve(c)))
        k == Sec1Key(c, p.priv)
    IN  IF ~p.ok THEN KNo
        ELSE IF k.v = "no" THEN KNo
        ELSE IF p.haspub THEN [v |-> Meet({k.v, PubMatch(c, k.k, p.pub)}), k |-> k.k]
        ELSE k
EdPkcs8Key(b) ==
    LET p == Pkcs8(b, OidEd25519, "")
        t == DTake(p.priv)
    IN  IF ~p.ok THEN KNo
        ELSE IF ~(t.ok /\ t.tag = 4 /\ t.rest = "" /\ BLen(t.body) = 32) THEN KNo
        ELSE IF p.haspub /\ p.pub # EdPublic(t.body) THEN KNo
        ELSE [v |-> "yes", k |-> t.body]

EcSec1Der(c, d, params) ==
    DSeq(<<DInt("1"), DOct(N2OS(d, Curve(c).len)),
           IF params THEN DTlv(160, DOid(OidCurve(c))) ELSE "", DTlv(161, DBit(EcPub(c, d)))>>)
EcAlg(c) == DSeq(<<DOid(OidEc), DOid(OidCurve(c))>>)
EcPkcs8Der(c, d) == DSeq(<<DInt("0"), EcAlg(c), DOct(EcSec1Der(c, d, FALSE))>>)
EcSpkiDer(c, Q) == DSeq(<<EcAlg(c), DBit(Q)>>)
EdAlg == DSeq(<<DOid(OidEd25519)>>)
EdPkcs8Der(seed) == DSeq(<<DInt("1"), EdAlg, DOct(DOct(seed)), DTlv(129, BCat("00", EdPublic(seed)))>>)
EdSpkiDer(A) == DSeq(<<EdAlg, DBit(A)>>)

\* an encoding v written to a caller's buffer of n bytes
Write(e, v) == IF e.n >= BLen(v) THEN Ok(e) /\ Obs(e, "out", v) ELSE AnyErr(e)

\* ---- ECDSA
EkKey(c, d) == [t |-> "ecsk", c |-> c, d |-> d]
EkTake(e, c, d) == Ok(e) /\ Obs(e, "d", N2OS(d, Curve(c).len)) /\ Put(e.h, EkKey(c, d))
EkLoad(e) ==
    /\ e.op = "ecdsa.load"
    /\ LET k == CASE e.fmt = "pkcs8" -> EcPkcs8Key(e.curve, e.der)
                  [] e.fmt = "sec1" -> Sec1Key(e.curve, e.der)
                  [] e.fmt = "raw" -> IF ScalarOk(e.curve, OS2N(e.der)) THEN [v |-> "yes", k |-> OS2N(e.der)] ELSE KNo
       IN  \/ k.v \in {"yes", "may"} /\ EkTake(e, e.curve, k.k)
           \/ k.v \in {"no", "may"} /\ AnyErr(e) /\ Same
EkGenerate(e) ==
    /\ e.op = "ecdsa.generate"
    /\ LET g == ScalarDraw(e, e.curve)
       IN  CASE g.r = "fail" -> Err(e, "RngFailed") /\ Same
             [] g.r = "ok" -> EkTake(e, e.curve, g.k)
             [] g.r = "impossible" -> FALSE
EkExport(e) ==
    /\ e.op = "ecdsa.export" /\ Is(e.h, "ecsk")
    /\ LET k == objs[e.h]
       IN  Write(e, CASE e.fmt = "pkcs8" -> EcPkcs8Der(k.c, k.d)
                      [] e.fmt = "sec1" -> EcSec1Der(k.c, k.d, TRUE)
                      [] e.fmt = "spki" -> EcSpkiDer(k.c, EcPub(k.c, k.d)))
    /\ Same
SigDer(sg) == DSeq(<<DInt(sg.r), DInt(sg.s)>>)
EkSign(e) ==
    /\ e.op = "ecdsa.sign" /\ Is(e.h, "ecsk")
    /\ LET k == objs[e.h]
           sg == EcdsaSign(k.c, e.hash, k.d, Hash(e.hash, BCatSeq(e.m)), RngBytes(e))
           fixed == FixedSig(k.c, sg)
       IN  IF RngFailed(e) THEN AnyErr(e)
           ELSE IF e.form = "fixed" /\ e.n < 2 * Curve(k.c).len THEN AnyErr(e)
           ELSE BLen(RngBytes(e)) >= 16 /\ Write(e, IF e.form = "fixed" THEN fixed ELSE SigDer(sg))
    /\ Same
EvLoad(e) ==
    /\ e.op = "ecdsa.loadpub"
    /\ LET p == EcDecode(e.curve, e.pt)
       IN  IF p.ok THEN Ok(e) /\ Put(e.h, [t |-> "ecvk", c |-> e.curve, pt |-> p.pt])
           ELSE AnyErr(e) /\ Same
\* the pair a signature encodes: [ok, r, s]
SigFixed(c, b) ==
    LET l == Curve(c).len
    IN  IF BLen(b) # 2 * l THEN [ok |-> FALSE, r |-> "0", s |-> "0"]
        ELSE [ok |-> TRUE, r |-> OS2N(BHead(b, l)), s |-> OS2N(BTail(b, l))]
SigAsn1(b) ==
    LET s == DReadSeq(b)
    IN  IF ~(s.ok /\ Len(s.v) = 2) THEN [ok |-> FALSE, r |-> "0", s |-> "0"]
        ELSE IF ~DAllNat(s.v, 1, 2) THEN [ok |-> FALSE, r |-> "0", s |-> "0"]
        ELSE [ok |-> TRUE, r |-> DNat(s.v[1]), s |-> DNat(s.v[2])]
EcdsaAccepts(c, Q, form, hash, m, sig) ==
    LET p == IF form = "fixed" THEN SigFixed(c, sig) ELSE SigAsn1(sig)
    IN  IF ~p.ok THEN FALSE
        ELSE IF ~(ScalarOk(c, p.r) /\ ScalarOk(c, p.s)) THEN FALSE
        ELSE EcdsaVerify(c, Q, Hash(hash, m), p.r, p.s)
Verdict(e, good) == IF good THEN Ok(e) ELSE AnyErr(e)
EvVerify(e) ==
    /\ e.op = "ecdsa.verify" /\ Is(e.h, "ecvk")
    /\ Verdict(e, EcdsaAccepts(objs[e.h].c, objs[e.h].pt, e.form, e.hash, BCatSeq(e.m), e.sig))
    /\ Same

\* ---- Ed25519
EdTake(e, seed) == Ok(e) /\ Obs(e, "d", seed) /\ Obs(e, "pub", EdPublic(seed)) /\ Put(e.h, [t |-> "edsk", k |-> seed, A |-> EdPublic(seed)])
EdLoad(e) ==
    /\ e.op = "ed25519.load"
    /\ LET k == IF e.fmt = "pkcs8" THEN EdPkcs8Key(e.der)
                ELSE IF BLen(e.der) = 32 THEN [v |-> "yes", k |-> e.der] ELSE KNo
       IN  IF k.v = "yes" THEN EdTake(e, k.k) ELSE AnyErr(e) /\ Same
EdGenerate(e) ==
    /\ e.op = "ed25519.generate"
    /\ IF RngFailed(e) THEN Err(e, "RngFailed") /\ Same
       ELSE Draws(e, 32) /\ EdTake(e, RngBytes(e))
EdExport(e) ==
    /\ e.op = "ed25519.export"
    /\ \/ Is(e.h, "edsk") /\ Write(e, EdPkcs8Der(objs[e.h].k))
       \/ Is(e.h, "edvk") /\ Write(e, EdSpkiDer(objs[e.h].A))
    /\ Same
EdSignA(e) ==
    /\ e.op = "ed25519.sign" /\ Is(e.h, "edsk")
    /\ Ok(e) /\ Obs(e, "out", EdSign(objs[e.h].k, objs[e.h].A, e.m)) /\ Same
EdSpkiKey(b) ==
    LET s == DReadSeq(b)
    IN  IF ~(s.ok /\ Len(s.v) = 2) THEN ""
        ELSE IF ~(s.v[1].tag = 48 /\ s.v[1].body = DOid(OidEd25519) /\ DIsBits(s.v[2], 3)) THEN ""
        ELSE BTail(s.v[2].body, 1)
EdLoadPub(e) ==
    /\ e.op = "ed25519.loadpub"
    /\ LET A == IF e.fmt = "spki" THEN EdSpkiKey(e.der) ELSE e.der
       IN  IF BLen(A) = 32 /\ EdDecode(A).ok
           THEN Ok(e) /\ Obs(e, "enc", A) /\ Put(e.h, [t |-> "edvk", A |-> A])
           ELSE AnyErr(e) /\ Same
EdVerifyA(e) ==
    /\ e.op = "ed25519.verify" /\ Is(e.h, "edvk")
    /\ Verdict(e, EdVerify(objs[e.h].A, e.m, e.sig)) /\ Same

SignNext(e) ==
    \/ EkLoad(e) \/ EkGenerate(e) \/ EkExport(e) \/ EkSign(e) \/ EvLoad(e) \/ EvVerify(e)
    \/ EdLoad(e) \/ EdGenerate(e) \/ EdExport(e) \/ EdSignA(e) \/ EdLoadPub(e) \/ EdVerifyA(e)
=============================================================================
