-------------------------------- MODULE ApiTls --------------------------------
(* The rustls provider: cipher suites and records, session tickets, key         *)
(* exchange, private keys and signers, signature verifiers.                     *)
EXTENDS ApiHash, ApiAead, ApiRsa

\* ---- cipher suites
Suite13(id, aead, klen, hash) == [ver |-> 772, id |-> id, aead |-> aead, klen |-> klen, hash |-> hash, sig |-> "any"]
Suite12(id, aead, klen, hash, sig) == [ver |-> 771, id |-> id, aead |-> aead, klen |-> klen, hash |-> hash, sig |-> sig]
Suites == [TLS13_AES_128_GCM_SHA256 |-> Suite13(4865, "gcm", 16, "sha256"),
           TLS13_AES_256_GCM_SHA384 |-> Suite13(4866, "gcm", 32, "sha384"),
           TLS13_CHACHA20_POLY1305_SHA256 |-> Suite13(4867, "chacha", 32, "sha256"),
           TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 |-> Suite12(49195, "gcm", 16, "sha256", "ec"),
           TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 |-> Suite12(49196, "gcm", 32, "sha384", "ec"),
           TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 |-> Suite12(52393, "chacha", 32, "sha256", "ec"),
           TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 |-> Suite12(49199, "gcm", 16, "sha256", "rsa"),
           TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 |-> Suite12(49200, "gcm", 32, "sha384", "rsa"),
           TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 |-> Suite12(52392, "chacha", 32, "sha256", "rsa")]
Groups == {"X25519MLKEM768", "X25519", "secp256r1", "secp384r1"}

\* ---- signature schemes (RFC 8446 4.2.3)
Sch(id, pad, hash) == [id |-> id, pad |-> pad, hash |-> hash]
RsaSchemes == <<Sch(2054, "pss", "sha512"), Sch(2053, "pss", "sha384"), Sch(2052, "pss", "sha256"),
                Sch(1537, "pkcs1", "sha512"), Sch(1281, "pkcs1", "sha384"), Sch(1025, "pkcs1", "sha256")>>   \* in order of preference
EcScheme(c) == IF c = "p256" THEN Sch(1027, "ec", "sha256") ELSE Sch(1283, "ec", "sha384")
EdScheme == Sch(2055, "ed", "")
SchemeIds == {RsaSchemes[j].id : j \in 1..6} \cup {1027, 1283, 2055}
\* schemes a TLS 1.2 suite may negotiate: all of these ...
SuiteSigns(sig) == IF sig = "rsa" THEN {RsaSchemes[j].id : j \in 1..6} ELSE {1027, 1283}
\* ... and possibly these (no key or verifier of the provider uses ecdsa_secp521r1_sha512)
SuiteMay(sig) == IF sig = "rsa" THEN {} ELSE {2055, 1539}

\* algorithm identifiers
HashOid(h) == BCat("6086480165030402", CASE h = "sha256" -> "01" [] h = "sha384" -> "02" [] OTHER -> "03")
HashAlgId(h) == DSeq(<<DOid(HashOid(h)), DNull>>)
HashNo(h) == CASE h = "sha256" -> 0 [] h = "sha384" -> 1 [] OTHER -> 2
PkAlgEc(c) == BCat(DOid(OidEc), DOid(OidCurve(c)))
PkAlgRsa == BCat(DOid(OidRsa), DNull)
AlgEd == DOid(OidEd25519)
SigAlgEc(h) == DOid(BCat("2a8648ce3d0403", DByte(2 + HashNo(h))))
SigAlgPkcs1(h) == BCat(DOid(BCat("2a864886f70d0101", DByte(11 + HashNo(h)))), DNull)
SigAlgPss(h) == BCat(DOid("2a864886f70d01010a"),
                     DSeq(<<DTlv(160, HashAlgId(h)), DTlv(161, DSeq(<<DOid("2a864886f70d010108"), HashAlgId(h)>>)),
                            DTlv(162, DInt(NInt(HLen(h))))>>))
Sha2s == {"sha256", "sha384", "sha512"}
\* what each pair (key algorithm, signature algorithm) verifies
VerAlgs == {[pk |-> PkAlgEc(c), sg |-> SigAlgEc(h), k |-> "ec", c |-> c, pad |-> "", hash |-> h] : c \in {"p256", "p384"}, h \in Sha2s}
      \cup {[pk |-> PkAlgRsa, sg |-> SigAlgPkcs1(h), k |-> "rsa", c |-> "", pad |-> "pkcs1", hash |-> h] : h \in Sha2s}
      \cup {[pk |-> PkAlgRsa, sg |-> SigAlgPss(h), k |-> "rsa", c |-> "", pad |-> "pss", hash |-> h] : h \in Sha2s}
      \cup {[pk |-> AlgEd, sg |-> AlgEd, k |-> "ed", c |-> "", pad |-> "", hash |-> ""]}
\* the verifier TLS 1.3 uses for a scheme: the first of its list
FirstAlg(id) ==
    CASE id = 1027 -> <<PkAlgEc("p256"), SigAlgEc("sha256")>>
      [] id = 1283 -> <<PkAlgEc("p384"), SigAlgEc("sha384")>>
      [] id = 2055 -> <<AlgEd, AlgEd>>
      [] OTHER -> LET j == CHOOSE j \in 1..6 : RsaSchemes[j].id = id
                  IN  <<PkAlgRsa, IF RsaSchemes[j].pad = "pss" THEN SigAlgPss(RsaSchemes[j].hash) ELSE SigAlgPkcs1(RsaSchemes[j].hash)>>
\* in TLS 1.2 the scheme fixes only the hash
SchemeAlgs(id) ==
    CASE id \in {1027, 1283} -> {<<PkAlgEc(c), SigAlgEc(IF id = 1027 THEN "sha256" ELSE "sha384")>> : c \in {"p256", "p384"}}
      [] OTHER -> {FirstAlg(id)}

TProvider(e) ==
    /\ e.op = "tls.provider" /\ Ok(e) /\ Same
    /\ ("suites" \in DOMAIN e =>
         /\ Range(e.suites) = DOMAIN Suites /\ Len(e.suites) = 9
         /\ Range(e.groups) = Groups /\ e.groups[1] = "X25519MLKEM768"
         /\ {e.schemes[j].scheme : j \in DOMAIN e.schemes} = SchemeIds
         /\ \A j \in DOMAIN e.schemes :
               /\ e.schemes[j].algs[1] = FirstAlg(e.schemes[j].scheme)
               /\ Range(e.schemes[j].algs) = SchemeAlgs(e.schemes[j].scheme)
         /\ Range(e.all) = {<<a.pk, a.sg>> : a \in VerAlgs})
TSuite(e) ==
    /\ e.op = "tls.suite" /\ Ok(e) /\ Same
    /\ LET s == Suites[e.suite]
       IN  /\ Obs(e, "ver", s.ver) /\ Obs(e, "id", s.id) /\ Obs(e, "keylen", s.klen)
           /\ Obs(e, "hashlen", HLen(s.hash)) /\ Obs(e, "hashalg", IF s.hash = "sha256" THEN "SHA256" ELSE "SHA384")
           \* AES-GCM: not more records under one key than RFC 8446 5.5 allows (2^24.5)
           /\ ("limit" \in DOMAIN e => s.aead # "gcm" \/ NLe(OS2N(e.limit), "16a09e6"))
           /\ (s.ver = 771 => /\ Obs(e, "ivlen", IF s.aead = "gcm" THEN 4 ELSE 12)
                              /\ Obs(e, "exlen", IF s.aead = "gcm" THEN 8 ELSE 0))
           /\ ("sign" \in DOMAIN e => IF s.ver = 772 THEN e.sign = << >>
                                 ELSE /\ SuiteSigns(s.sig) \subseteq Range(e.sign)
                                      /\ Range(e.sign) \subseteq (SuiteSigns(s.sig) \cup SuiteMay(s.sig)))

\* ---- records: RFC 8446 5.2, RFC 5246 6.2.3.3, RFC 5288, RFC 7905
MaxFragment == 16384
SeqNonce(iv, seq) == BXor(iv, BCat("00000000", seq))
\* (lengths are below 2^16 on the wire)
Aad13(n) == BCat("170303", N2OS(NInt(n % 65536), 2))
Aad12(seq, typ, ver, n) == BCatSeq(<<seq, DByte(typ), N2OS(NInt(ver), 2), N2OS(NInt(n % 65536), 2)>>)
SuiteIv(s, iv, ex) == BCat(iv, ex)                      \* 12 bytes
RecSeal(s, key, iv, seq, typ, ver, content) ==
    LET nonce == SeqNonce(iv, seq)
        inner == IF s.ver = 772 THEN BCat(content, DByte(typ)) ELSE content
        aad == IF s.ver = 772 THEN Aad13(BLen(inner) + 16) ELSE Aad12(seq, typ, ver, BLen(content))
        x == AeadSeal(s.aead, key, nonce, aad, inner)
    IN  BCatSeq(<<IF s.ver = 771 /\ s.aead = "gcm" THEN BTail(nonce, 4) ELSE "", x.ct, x.tag>>)
RNo(e) == [r |-> e, typ |-> 0, pt |-> ""]
RECURSIVE Unpad(_)
Unpad(b) == IF b = "" THEN "" ELSE IF BAt(b, BLen(b) - 1) = 0 THEN Unpad(BHead(b, BLen(b) - 1)) ELSE b
RecOpen(s, key, iv, seq, typ, ver, payload) ==
    LET ex == IF s.ver = 771 /\ s.aead = "gcm" THEN 8 ELSE 0
        n == BLen(payload) - ex - 16
        nonce == IF ex = 8 THEN BCat(BHead(iv, 4), BHead(payload, 8)) ELSE SeqNonce(iv, seq)
        aad == IF s.ver = 772 THEN Aad13(BLen(payload)) ELSE Aad12(seq, typ, ver, n)
        ct == BSub(payload, ex, n)
        inner == AeadCrypt(s.aead, key, nonce, ct)
        un == Unpad(inner)
    IN  IF n < 0 THEN RNo("DecryptError")
        ELSE IF ~AeadOpens(s.aead, key, nonce, aad, ct, BLast(payload, 16)) THEN RNo("DecryptError")
        ELSE IF s.ver = 771 THEN (IF n > MaxFragment THEN RNo("PeerSentOversizedRecord") ELSE [r |-> "ok", typ |-> typ, pt |-> inner])
        ELSE IF n > MaxFragment + 1 THEN RNo("PeerSentOversizedRecord")
        ELSE IF un = "" THEN RNo("PeerMisbehaved")
        ELSE IF BLen(un) > MaxFragment + 1 THEN RNo("PeerSentOversizedRecord")
        ELSE [r |-> "ok", typ |-> BAt(un, BLen(un) - 1), pt |-> BHead(un, BLen(un) - 1)]

TCipher(e) ==
    /\ e.op = "tls.cipher" /\ Ok(e)
    /\ Put(e.h, [t |-> "tls" \o e.dir, suite |-> e.suite, key |-> e.key, iv |-> IF e.dir = "enc" THEN BCat(e.iv, e.ex) ELSE e.iv])
TExtract(e) ==
    /\ e.op = "tls.extract" /\ Ok(e) /\ Same
    /\ LET s == Suites[e.suite]
       IN  /\ Obs(e, "kind", CASE s.aead = "chacha" -> "chacha20poly1305" [] s.klen = 16 -> "aes128gcm" [] OTHER -> "aes256gcm")
           /\ Obs(e, "okey", e.key) /\ Obs(e, "oiv", BCat(e.iv, e.ex))
Content(e) == BSub(BCatSeq(e.parts), e.from, e.len)
TSeal(e) ==
    /\ e.op = "tls.seal" /\ Is(e.h, "tlsenc") /\ Ok(e)
    /\ LET o == objs[e.h]
           s == Suites[o.suite]
           rec == RecSeal(s, o.key, o.iv, e.seq, e.typ, e.ver, Content(e))
       IN  /\ Obs(e, "out", rec) /\ Obs(e, "elen", BLen(rec))
           /\ Obs(e, "otyp", IF s.ver = 772 THEN 23 ELSE e.typ)
           /\ Obs(e, "over", IF s.ver = 772 THEN 771 ELSE e.ver)
           /\ IF "to" \in DOMAIN e THEN Put(e.to, [t |-> "bytes", b |-> rec]) ELSE Same
\* the bytes given: those of an object, changed as the step says
Given(e, f) ==
    LET b0 == IF "from" \in DOMAIN e THEN objs[e.from].b ELSE e[f]
        x1 == IF "flip" \in DOMAIN e THEN BFlip(b0, e.flip) ELSE b0
        x2 == IF "xorhead" \in DOMAIN e THEN BCat(BXor(BHead(x1, Min(BLen(x1), BLen(e.xorhead))), e.xorhead), BTail(x1, Min(BLen(x1), BLen(e.xorhead)))) ELSE x1
        b1 == IF "xortail" \in DOMAIN e THEN BRev(BCat(BXor(BHead(BRev(x2), Min(BLen(x2), BLen(e.xortail))), BRev(e.xortail)), BTail(BRev(x2), Min(BLen(x2), BLen(e.xortail))))) ELSE x2
        b1a == IF "puthead" \in DOMAIN e THEN BCat(e.puthead, BTail(b1, Min(BLen(e.puthead), BLen(b1)))) ELSE b1
        b1b == IF "puttail" \in DOMAIN e THEN BCat(BHead(b1a, Max(0, BLen(b1a) - BLen(e.puttail))), e.puttail) ELSE b1a
        b2 == IF "cuthead" \in DOMAIN e THEN BTail(b1b, Min(e.cuthead, BLen(b1b))) ELSE b1b
        b3 == IF "cut" \in DOMAIN e THEN BHead(b2, Max(0, BLen(b2) - e.cut)) ELSE b2
    IN  IF "add" \in DOMAIN e THEN BCat(b3, e.add) ELSE b3
HasFrom(e) == "from" \in DOMAIN e => Is(e.from, "bytes")
TOpen(e) ==
    /\ e.op = "tls.open" /\ Is(e.h, "tlsdec") /\ HasFrom(e)
    /\ LET o == objs[e.h]
           s == Suites[o.suite]
           x == RecOpen(s, o.key, o.iv, e.seq, e.typ, e.ver, Given(e, "payload"))
       IN  IF x.r = "ok" THEN Ok(e) /\ Obs(e, "otyp", x.typ) /\ Obs(e, "pt", x.pt) /\ Obs(e, "over", s.ver)
           ELSE Err(e, x.r)
    /\ Same

\* ---- session tickets.  A ticketer has a current and a previous key, and the
\* time after which the next use replaces the current one.
TicketLife == 21600
TKeys(b) == {[k |-> BHead(b, 32), name |-> BTail(b, 32)], [k |-> BTail(b, 16), name |-> BHead(b, 16)]}
Now == IF Has("clock") THEN objs["clock"].at ELSE 0
TClock(e) == e.op = "tls.clock" /\ Ok(e) /\ Put("clock", [t |-> "clock", at |-> e.at])
NoKey == {}
TNew(e) ==
    /\ e.op = "tls.ticketer"
    /\ IF RngFailed(e) THEN AnyErr(e) /\ Same
       ELSE /\ Ok(e) /\ Draws(e, 48) /\ Obs(e, "lifetime", 2 * TicketLife) /\ Obs(e, "enabled", TRUE)
            /\ Put(e.h, [t |-> "ticketer", cur |-> TKeys(RngBytes(e)), prev |-> NoKey, next |-> Now + TicketLife])
\* the ticketer at this use: [ok, o, rest (randomness left)]
Rolled(e, o) ==
    IF Now <= o.next THEN [ok |-> TRUE, o |-> o, rest |-> IF "t0" \in DOMAIN e /\ BLen(RngBytes(e)) >= 48
                                                         THEN BTail(RngBytes(e), 48) ELSE RngBytes(e)]   \* another thread was first: the new key is not used
    ELSE IF RngBytes(e) = "" THEN [ok |-> FALSE, o |-> o, rest |-> ""]
    ELSE IF BLen(RngBytes(e)) < 48 THEN [ok |-> FALSE, o |-> o, rest |-> ""]
    ELSE [ok |-> TRUE, rest |-> BTail(RngBytes(e), 48),
          o |-> [o EXCEPT !.cur = TKeys(BHead(RngBytes(e), 48)), !.prev = o.cur, !.next = Now + TicketLife]]
TicketMake(k, nonce, m) ==
    LET x == XChaSeal(k.k, nonce, k.name, m) IN BCatSeq(<<k.name, nonce, x.ct, x.tag>>)
\* the keys, once known which bytes they are
TicketSecrets(ks) == IF \E k \in ks : ks = {k} THEN {k.k : k \in ks} ELSE {}
TSealTicket(e) ==
    /\ e.op = "tls.tseal" /\ Is(e.h, "ticketer")
    /\ LET r == Rolled(e, objs[e.h])
           fits == {k \in r.o.cur : e.out = TicketMake(k, r.rest, e.m)}
       IN  IF RngFailed(e)
           THEN Obs(e, "r", "none") /\ Put(e.h, r.o)
           ELSE /\ Ok(e) /\ r.ok /\ BLen(r.rest) = 24 /\ "out" \in DOMAIN e /\ fits # {}
                /\ Watched(e, TicketSecrets(objs[e.h].prev) \ TicketSecrets(r.o.prev))
                /\ objs' = (e.h :> [r.o EXCEPT !.cur = fits]) @@ (IF "to" \in DOMAIN e THEN (e.to :> [t |-> "bytes", b |-> e.out]) ELSE << >>) @@ objs
TicketRead(k, t) ==
    LET n == BLen(t) - 56
        ct == BSub(t, 40, n)
        nonce == BSub(t, 16, 24)
    IN  IF n < 0 THEN [ok |-> FALSE, pt |-> ""]
        ELSE IF BHead(t, 16) # k.name THEN [ok |-> FALSE, pt |-> ""]
        ELSE IF ~AeadOpens("xchacha", k.k, nonce, k.name, ct, BLast(t, 16)) THEN [ok |-> FALSE, pt |-> ""]
        ELSE [ok |-> TRUE, pt |-> AeadCrypt("xchacha", k.k, nonce, ct)]
TOpenTicket(e) ==
    /\ e.op = "tls.topen" /\ Is(e.h, "ticketer") /\ HasFrom(e)
    /\ LET r == Rolled(e, objs[e.h])
           t == Given(e, "t")
           good == {k \in r.o.cur \cup r.o.prev : TicketRead(k, t).ok}
           pt == TicketRead(CHOOSE k \in good : TRUE, t).pt
       IN  IF RngFailed(e) THEN Obs(e, "r", "none") /\ Put(e.h, r.o)
           ELSE /\ r.ok /\ r.rest = "" /\ Put(e.h, r.o)
                /\ Watched(e, TicketSecrets(objs[e.h].prev) \ TicketSecrets(r.o.prev))
                /\ IF good = {} THEN Obs(e, "r", "none")
                   ELSE IF pt = "" THEN TRUE                  \* rustls never seals an empty state
                   ELSE Ok(e) /\ Obs(e, "pt", pt)

\* ---- key exchange
GroupCurve(g) == IF g = "secp256r1" THEN "p256" ELSE "p384"
KxKeep(e) == IF "to" \in DOMAIN e THEN e.to :> [t |-> "bytes", b |-> e.pub] ELSE << >>
KxPut(e, o) == objs' = (e.h :> o) @@ KxKeep(e) @@ objs
KxX(k) == [t |-> "kx", g |-> "X25519", k |-> k, dk |-> ""]
KxHybrid(x, seed) == [t |-> "kx", g |-> "X25519MLKEM768", k |-> x, dk |-> MlKeyGen(seed).dk]
\* X25519 key and ML-KEM seed out of the randomness, in either order
HybridDraws(b, n) == {<<BHead(b, 32), BTail(b, 32)>>, <<BTail(b, n), BHead(b, n)>>}
TKxStart(e) ==
    /\ e.op = "tls.kxstart"
    /\ IF RngFailed(e) THEN AnyErr(e) /\ Same
       ELSE IF e.group = "X25519"
       THEN Ok(e) /\ Draws(e, 32) /\ Obs(e, "pub", X25519Base(RngBytes(e))) /\ Obs(e, "comp", "") /\ KxPut(e, KxX(RngBytes(e)))
       ELSE IF e.group = "X25519MLKEM768"
       THEN /\ Ok(e) /\ Draws(e, 96)
            /\ \E d \in HybridDraws(RngBytes(e), 64) :
                  /\ Obs(e, "pub", BCat(MlKeyGen(d[2]).ek, X25519Base(d[1])))
                  /\ Obs(e, "comp", X25519Base(d[1])) /\ Obs(e, "compgroup", "X25519")
                  /\ KxPut(e, KxHybrid(d[1], d[2]))
       ELSE LET c == GroupCurve(e.group)
                g == ScalarDraw(e, c)
            IN  CASE g.r = "fail" -> AnyErr(e) /\ Same
                  [] g.r = "ok" -> /\ Ok(e) /\ Obs(e, "pub", EcPub(c, g.k)) /\ Obs(e, "comp", "")
                                   /\ KxPut(e, [t |-> "kx", g |-> e.group, k |-> g.k, dk |-> ""])
                  [] g.r = "impossible" -> FALSE
    /\ (Fld(e, "r", "") = "ok" => Obs(e, "group", e.group))
BadShare == [ok |-> FALSE, ss |-> ""]
XAgree(k, u) ==
    LET z == X25519(k, u) IN IF BLen(u) # 32 THEN BadShare ELSE IF z = BZero(32) THEN BadShare ELSE [ok |-> TRUE, ss |-> z]
EAgree(c, d, pt) ==
    LET p == EcDecode(c, pt) IN IF p.ok THEN [ok |-> TRUE, ss |-> N2OS(EcMul(c, d, p.pt)[1], Curve(c).len)] ELSE BadShare
HAgree(k, dk, peer) ==
    LET x == XAgree(k, BTail(peer, 1088))
    IN  IF BLen(peer) # 1120 THEN BadShare
        ELSE IF ~x.ok THEN BadShare
        ELSE [ok |-> TRUE, ss |-> BCat(MlDecaps(dk, BHead(peer, 1088)), x.ss)]
Agree(o, peer, comp) ==
    CASE o.g = "X25519" -> XAgree(o.k, peer)
      [] o.g = "X25519MLKEM768" -> IF comp THEN XAgree(o.k, peer) ELSE HAgree(o.k, o.dk, peer)
      [] OTHER -> EAgree(GroupCurve(o.g), o.k, peer)
BadShareErr(e) == Err(e, "PeerMisbehaved")
KxSecrets(o) ==
    LET ec == N2OS(o.k, Curve(GroupCurve(o.g)).len)
    IN  IF o.g \in {"X25519", "X25519MLKEM768"}
        THEN {o.k, Clamp(o.k)} \cup (IF o.dk = "" THEN {} ELSE {BHead(o.dk, 1152), BLast(o.dk, 32)})
        ELSE {ec, BRev(ec)}
TKxComplete(e) ==
    /\ e.op = "tls.kxcomplete" /\ Is(e.h, "kx") /\ HasFrom(e)
    /\ LET a == Agree(objs[e.h], Given(e, "peer"), Fld(e, "comp", FALSE))
           whole == ~Fld(e, "comp", FALSE) /\ BLen(Given(e, "peer")) \notin {32, 65, 97, 1120}  \* refused unread
       IN  /\ IF a.ok THEN Ok(e) /\ Obs(e, "ss", a.ss) ELSE BadShareErr(e)
           /\ Watched(e, IF a.ok THEN {a.ss} ELSE IF whole THEN KxSecrets(objs[e.h]) ELSE {})
    /\ Del(e.h)
Served(e, pub, ss) ==
    /\ Watched(e, {ss})
    /\ Ok(e) /\ Obs(e, "pub", pub) /\ Obs(e, "ss", ss) /\ Obs(e, "ogroup", e.group)
    /\ IF "to" \in DOMAIN e THEN Put(e.to, [t |-> "bytes", b |-> pub]) ELSE Same
TKxServe(e) ==
    /\ e.op = "tls.kxserve" /\ HasFrom(e)
    /\ LET peer == Given(e, "peer")
           c == GroupCurve(e.group)
           g == ScalarDraw(e, c)
       IN  IF RngFailed(e) THEN AnyErr(e) /\ Same
           ELSE IF e.group = "X25519"
           THEN IF BLen(peer) # 32 THEN BadShareErr(e) /\ Same
                ELSE /\ Draws(e, 32)
                     /\ LET a == XAgree(RngBytes(e), peer)
                        IN  IF a.ok THEN Served(e, X25519Base(RngBytes(e)), a.ss) ELSE BadShareErr(e) /\ Same
           ELSE IF e.group = "X25519MLKEM768"
           THEN IF BLen(peer) # 1216 THEN BadShareErr(e) /\ Same
                ELSE IF ~MlEkOk(BHead(peer, 1184)) THEN BadShareErr(e) /\ Same
                ELSE IF X25519(BRep(64, 32), BTail(peer, 1184)) = BZero(32) THEN BadShareErr(e) /\ Same     \* small order: with any key
                ELSE /\ Draws(e, 64)
                     /\ \E d \in HybridDraws(RngBytes(e), 32) :
                          LET x == XAgree(d[1], BTail(peer, 1184))
                              m == MlEncaps(BHead(peer, 1184), d[2])
                          IN  Served(e, BCat(m.ct, X25519Base(d[1])), BCat(m.ss, x.ss))
           ELSE IF ~EcDecode(c, peer).ok THEN BadShareErr(e) /\ Same
           ELSE g.r = "ok" /\ Served(e, EcPub(c, g.k), EAgree(c, g.k, peer).ss)
TKxVersions(e) ==
    /\ e.op = "tls.kxversions" /\ Ok(e) /\ Same
    /\ Obs(e, "v12", e.group # "X25519MLKEM768") /\ Obs(e, "v13", TRUE)

\* ---- private keys and signers
\* the kinds a container may be read as: <<verdict, key object>>
TKeyReads(fmt, der) ==
    LET rsa == IF fmt = "pkcs8" THEN RsaPkcs8Read(der) ELSE IF fmt = "pkcs1" THEN RsaPrivRead(der) ELSE NoRsa
        ec(c) == IF fmt = "pkcs8" THEN EcPkcs8Key(c, der) ELSE IF fmt = "sec1" THEN Sec1Key(c, der) ELSE KNo
        ed == IF fmt = "pkcs8" THEN EdPkcs8Key(der) ELSE KNo
        eck(c) == <<ec(c).v, [t |-> "tkey", kind |-> "ECDSA", c |-> c, k |-> ec(c).k, good |-> TRUE]>>
    IN  <<eck("p256"), eck("p384"), <<ed.v, [t |-> "tkey", kind |-> "ED25519", c |-> "", k |-> ed.k, good |-> TRUE]>>,
          <<rsa.v, [t |-> "tkey", kind |-> "RSA", c |-> "", k |-> rsa.k, good |-> IF rsa.v = "no" THEN FALSE ELSE rsa.good]>> >>
TKeySpki(k) ==
    CASE k.kind = "RSA" -> RsaSpkiDer(k.k.n, k.k.e)
      [] k.kind = "ECDSA" -> EcSpkiDer(k.c, EcPub(k.c, k.k))
      [] OTHER -> EdSpkiDer(EdPublic(k.k))
TKeyLoad(e) ==
    /\ e.op = "tls.keyload"
    /\ LET R == TKeyReads(e.fmt, e.der)
       IN  \/ \E j \in 1..4 : LET x == R[j] IN
                           /\ x[1] \in {"yes", "may"}
                           /\ Ok(e) /\ Obs(e, "alg", x[2].kind) /\ Obs(e, "pub", TKeySpki(x[2])) /\ Put(e.h, x[2])
           \/ (\A j \in 1..4 : R[j][1] # "yes") /\ AnyErr(e) /\ Same
KeySchemes(k) == CASE k.kind = "RSA" -> RsaSchemes [] k.kind = "ECDSA" -> <<EcScheme(k.c)>> [] OTHER -> <<EdScheme>>
TChoose(e) ==
    /\ e.op = "tls.choose" /\ Is(e.h, "tkey")
    /\ LET k == objs[e.h]
           mine == SelectSeq(KeySchemes(k), LAMBDA s : s.id \in Range(e.schemes))
       IN  IF mine = << >> THEN Obs(e, "r", "none") /\ Same
           ELSE Ok(e) /\ Obs(e, "scheme", mine[1].id) /\ Put(e.to, [t |-> "signer", k |-> k, s |-> mine[1]])
TSign(e) ==
    /\ e.op = "tls.sign" /\ Is(e.h, "signer")
    /\ LET k == objs[e.h].k
           s == objs[e.h].s
           keep == IF "to" \in DOMAIN e THEN Put(e.to, [t |-> "bytes", b |-> e.out]) ELSE Same
       IN  CASE k.kind = "RSA" ->
                  IF RngFailed(e) THEN AnyErr(e) /\ Same
                  ELSE \/ ~k.good /\ AnyErr(e) /\ Same
                       \/ /\ Ok(e) /\ "out" \in DOMAIN e
                          /\ (s.pad = "pss" => Draws(e, HLen(s.hash)))
                          /\ RsaSigIs(k.k.n, k.k.e, s.pad, s.hash, e.m, RngBytes(e), e.out)
                          /\ keep
             [] k.kind = "ECDSA" ->
                  IF RngFailed(e) THEN AnyErr(e) /\ Same
                  ELSE /\ Ok(e) /\ BLen(RngBytes(e)) >= 16
                       /\ Obs(e, "out", SigDer(EcdsaSign(k.c, s.hash, k.k, Hash(s.hash, e.m), RngBytes(e))))
                       /\ keep
             [] OTHER -> Ok(e) /\ Obs(e, "out", EdSign(k.k, EdPublic(k.k), e.m)) /\ keep
AlgVerifies(a, pk, m, sig) ==
    LET rk == RsaPubRead(pk)
        ek == EcDecode(a.c, pk)
    IN  CASE a.k = "rsa" -> IF rk.v = "no" THEN FALSE ELSE RsaVerify(rk.n, rk.e, a.pad, a.hash, m, sig)
          [] a.k = "ec" -> IF ~ek.ok THEN FALSE ELSE EcdsaAccepts(a.c, ek.pt, "asn1", a.hash, m, sig)
          [] OTHER -> IF BLen(pk) # 32 THEN FALSE ELSE IF ~EdDecode(pk).ok THEN FALSE ELSE EdVerify(pk, m, sig)
TVerify(e) ==
    /\ e.op = "tls.verify" /\ HasFrom(e) /\ Same
    /\ LET A == {a \in VerAlgs : a.pk = e.pkalg /\ a.sg = e.sigalg}
           a == CHOOSE a \in A : TRUE
           sig == Given(e, "sig")
           rk == RsaPubRead(e.pk)
           good == AlgVerifies(a, e.pk, e.m, sig)
       IN  IF A = {} THEN Obs(e, "r", "nosuch")
           ELSE \/ good /\ Ok(e)
                \/ ~good /\ AnyErr(e)
                \/ a.k = "rsa" /\ rk.v = "may" /\ AnyErr(e)
TRandom(e) ==
    /\ e.op = "tls.random" /\ Same
    /\ IF RngFailed(e) THEN AnyErr(e) ELSE Ok(e) /\ Obs(e, "out", RngBytes(e)) /\ BLen(e.out) = e.n

\* ---- what each suite derives keys with: HKDF, or the TLS 1.2 PRF
TKdf(e) ==
    /\ e.op = "tls.kdf" /\ Same
    /\ LET s == Suites[e.suite]
           l == HLen(s.hash)
           info == BCatSeq(e.parts)
           salt == IF Fld(e, "nosalt", FALSE) THEN "" ELSE e.salt
           prk == CASE e.how = "zero" -> HkdfExtract(s.hash, salt, BZero(l)) [] e.how = "secret" -> HkdfExtract(s.hash, salt, e.secret) [] OTHER -> e.secret
       IN  IF s.ver = 771 THEN Ok(e) /\ Obs(e, "out", Tls12Prf(s.hash, e.secret, e.parts[1], e.parts[2], e.n))
           ELSE IF e.how = "sign" THEN Ok(e) /\ Obs(e, "out", HMAC(s.hash, e.secret, info))
           ELSE IF e.n > 255 * l THEN Err(e, "OutputLength")
           ELSE /\ Ok(e) /\ Obs(e, "out", HkdfExpand(s.hash, prk, info, e.n))
                /\ Obs(e, "block", HkdfExpand(s.hash, prk, info, l)) /\ Obs(e, "hashlen", l)

TlsNext(e) ==
    \/ TProvider(e) \/ TSuite(e) \/ TCipher(e) \/ TExtract(e) \/ TSeal(e) \/ TOpen(e)
    \/ TClock(e) \/ TNew(e) \/ TSealTicket(e) \/ TOpenTicket(e)
    \/ TKxStart(e) \/ TKxComplete(e) \/ TKxServe(e) \/ TKxVersions(e)
    \/ TKeyLoad(e) \/ TChoose(e) \/ TSign(e) \/ TVerify(e) \/ TRandom(e) \/ TKdf(e)
=============================================================================
