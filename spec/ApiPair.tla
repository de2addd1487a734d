-------------------------------- MODULE ApiPair --------------------------------
(* TLS connections (RFC 8446, RFC 5246, 5077, 7627, 8422), as an eavesdropper    *)
(* who knows the client's randomness sees them: the keys are derived from it, the *)
(* records decrypted, and every signature, Finished message and binder checked.   *)
(*                                                                                *)
(* A connection is one action, tls.pair, whose observation is the flights each    *)
(* side sent; later data and key updates are actions on the connection's keys.    *)
EXTENDS ApiTls

U16(b, o) == 256 * BAt(b, o) + BAt(b, o + 1)
U24(b, o) == 65536 * BAt(b, o) + U16(b, o + 1)
B16(n) == BOf(<<n \div 256, n % 256>>)
Seq8(n) == N2OS(NInt(n), 8)

\* ---- the wire
RECURSIVE Recs(_)
Recs(b) == IF b = "" THEN << >> ELSE <<[typ |-> BAt(b, 0), body |-> BSub(b, 5, U16(b, 3))]>> \o Recs(BTail(b, 5 + U16(b, 3)))
Flights(e, d) == SelectSeq(e.flights, LAMBDA f : f.from = d)
Wire(e, d) == LET F == Flights(e, d) IN BCatSeq([i \in DOMAIN F |-> F[i].wire])
OfType(R, t) == SelectSeq(R, LAMBDA r : r.typ = t)
Bodies(R) == BCatSeq([i \in DOMAIN R |-> R[i].body])
RECURSIVE Whole(_)
Whole(b) == IF b = "" THEN TRUE ELSE IF BLen(b) < 4 THEN FALSE ELSE IF BLen(b) < 4 + U24(b, 1) THEN FALSE ELSE Whole(BTail(b, 4 + U24(b, 1)))
RECURSIVE Msgs(_)
Msgs(b) == IF b = "" THEN << >>
           ELSE LET n == U24(b, 1) IN <<[typ |-> BAt(b, 0), raw |-> BHead(b, 4 + n), body |-> BSub(b, 4, n)]>> \o Msgs(BTail(b, 4 + n))
RECURSIVE Exts(_)
Exts(b) == IF b = "" THEN << >> ELSE <<[typ |-> U16(b, 0), body |-> BSub(b, 4, U16(b, 2))]>> \o Exts(BTail(b, 4 + U16(b, 2)))
HasExt(x, t) == \E i \in DOMAIN x.exts : x.exts[i].typ = t
Ext(x, t) == x.exts[CHOOSE i \in DOMAIN x.exts : x.exts[i].typ = t].body
Hello(m, client) ==
    LET b == m.body
        o1 == 35 + BAt(b, 34)
        o2 == IF client THEN o1 + 2 + U16(b, o1) ELSE o1 + 2
        o3 == IF client THEN o2 + 1 + BAt(b, o2) ELSE o2 + 1
    IN  [raw |-> m.raw, random |-> BSub(b, 2, 32), sid |-> BSub(b, 35, BAt(b, 34)),
         suites |-> IF client THEN {U16(b, o1 + 2 + 2 * i) : i \in 0..((U16(b, o1) \div 2) - 1)} ELSE {U16(b, o1)},
         exts |-> IF BLen(b) <= o3 THEN << >> ELSE Exts(BTail(b, o3 + 2))]
RECURSIVE U16s(_)
U16s(b) == IF b = "" THEN {} ELSE {U16(b, 0)} \cup U16s(BTail(b, 2))
Offered(ch) == U16s(BTail(Ext(ch, 13), 2))           \* signature_algorithms
GroupId == [X25519MLKEM768 |-> 4588, X25519 |-> 29, secp256r1 |-> 23, secp384r1 |-> 24]
GroupsOf(ch) == U16s(BTail(Ext(ch, 10), 2))
RECURSIVE Shares(_)
Shares(b) == IF b = "" THEN {} ELSE {[g |-> U16(b, 0), k |-> BSub(b, 4, U16(b, 2))]} \cup Shares(BTail(b, 4 + U16(b, 2)))

\* ---- key exchange: the client's key out of what it drew
Starts(b, n) == 0..(BLen(b) - n)
Privs(g, b, pub) ==
    CASE g = "X25519" -> {KxX(BSub(b, o, 32)) : o \in {o \in Starts(b, 32) : X25519Base(BSub(b, o, 32)) = pub}}
      [] g = "X25519MLKEM768" ->
            {KxHybrid(BSub(b, p[1], 32), BSub(b, p[2], 64)) : p \in
                {p \in {<<o, o + 32>> : o \in Starts(b, 32)} \cup {<<o, o - 64>> : o \in Starts(b, 32)} :
                    IF p[2] \notin Starts(b, 64) THEN FALSE
                    ELSE IF X25519Base(BSub(b, p[1], 32)) # BTail(pub, 1184) THEN FALSE ELSE MlKeyGen(BSub(b, p[2], 64)).ek = BHead(pub, 1184)}}
      [] OTHER -> LET c == GroupCurve(g)  l == Curve(c).len IN
            {[t |-> "kx", g |-> g, k |-> OS2N(BSub(b, o, l)), dk |-> ""] : o \in
                {o \in Starts(b, l) : IF ~ScalarOk(c, OS2N(BSub(b, o, l))) THEN FALSE ELSE EcPub(c, OS2N(BSub(b, o, l))) = pub}}
Agreed(g, b, pub, peer) == {a.ss : a \in {a \in {Agree(k, peer, FALSE) : k \in Privs(g, b, pub)} : a.ok}}

\* ---- certificates and signatures
SpkiOf(cert) ==
    LET tbs == DItems(DReadSeq(cert).v[1].body).v
        i == IF tbs[1].tag = 160 THEN 7 ELSE 6
        s == DItems(tbs[i].body).v
    IN  [alg |-> s[1].body, pk |-> BTail(s[2].body, 1)]
CertVerifiedBy(cert, issuer) ==
    LET v == DReadSeq(cert).v
        k == SpkiOf(issuer)
    IN  \E a \in VerAlgs : a.pk = k.alg /\ a.sg = v[2].body /\ AlgVerifies(a, k.pk, DTlv(48, v[1].body), BTail(v[3].body, 1))
ChainOk(C) == \A i \in 1..(Len(C) - 1) : CertVerifiedBy(C[i], C[i + 1])
RECURSIVE CertList(_, _)
CertList(b, exts) ==
    IF b = "" THEN << >>
    ELSE LET n == U24(b, 0)
         IN  <<BSub(b, 3, n)>> \o CertList(BTail(b, 3 + n + (IF exts THEN 2 + U16(b, 3 + n) ELSE 0)), exts)
Certs13(m) == CertList(BTail(m.body, 4 + BAt(m.body, 0)), TRUE)
Certs12(m) == CertList(BTail(m.body, 3), FALSE)
\* a signature block: scheme, length, signature; by the key of a certificate
SignedBy(ver, cert, b, m) ==
    LET k == SpkiOf(cert)
        id == U16(b, 0)
    IN  /\ id \in SchemeIds
        /\ \E a \in VerAlgs : a.pk = k.alg /\ <<a.pk, a.sg>> \in SchemeAlgs(id)
                /\ (ver = 772 => <<a.pk, a.sg>> = FirstAlg(id) /\ a.pad # "pkcs1")
                /\ AlgVerifies(a, k.pk, m, BSub(b, 4, U16(b, 2)))

\* ---- TLS 1.3 key schedule
ExpandLabel(h, secret, label, ctx, n) ==
    LET l == BCat("746c73313320", BAscii(label))
    IN  HkdfExpand(h, secret, BCatSeq(<<B16(n), DByte(BLen(l)), l, DByte(BLen(ctx)), ctx>>), n)
Derive(h, secret, label, msgs) == ExpandLabel(h, secret, label, Hash(h, msgs), HLen(h))
Early(h, psk) == HkdfExtract(h, "", IF psk = "" THEN BZero(HLen(h)) ELSE psk)
HsSecret(h, psk, ss) == HkdfExtract(h, Derive(h, Early(h, psk), "derived", ""), ss)
MainSecret(h, hs) == HkdfExtract(h, Derive(h, hs, "derived", ""), BZero(HLen(h)))
FinMac(h, secret, msgs) == HMAC(h, ExpandLabel(h, secret, "finished", "", HLen(h)), Hash(h, msgs))
TKey(s, secret) == ExpandLabel(s.hash, secret, "key", "", s.klen)
TIv(s, secret) == ExpandLabel(s.hash, secret, "iv", "", 12)
\* handshake messages of encrypted records, up to Finished: [ok, hs, n]
NoHs == [ok |-> FALSE, hs |-> "", n |-> 0]
RECURSIVE ToFinished(_, _, _, _, _, _)
ToFinished(s, k, iv, R, i, acc) ==
    IF i >= Len(R) THEN NoHs
    ELSE LET x == RecOpen(s, k, iv, Seq8(i), 23, 771, R[i + 1].body)
             a == BCat(acc, x.pt)
         IN  IF x.r # "ok" THEN NoHs
             ELSE IF x.typ # 22 THEN NoHs
             ELSE IF ~Whole(a) THEN ToFinished(s, k, iv, R, i + 1, a)
             ELSE IF Msgs(a)[Len(Msgs(a))].typ = 20 THEN [ok |-> TRUE, hs |-> a, n |-> i + 1]
             ELSE ToFinished(s, k, iv, R, i + 1, a)
\* records under application keys, which a KeyUpdate replaces: [ok, sec, n, data, hs]
RECURSIVE Apply(_, _, _)
Apply(s, st, R) ==
    IF R = << >> THEN st
    ELSE LET x == RecOpen(s, TKey(s, st.sec), TIv(s, st.sec), Seq8(st.n), 23, 771, R[1].body)
             next == [st EXCEPT !.n = st.n + 1]
         IN  IF x.r # "ok" THEN [st EXCEPT !.ok = FALSE]
             ELSE IF x.typ = 23 THEN Apply(s, [next EXCEPT !.data = BCat(st.data, x.pt)], Tail(R))
             ELSE IF x.typ = 22 /\ x.pt \in {"1800000100", "1800000101"}
                  THEN Apply(s, [next EXCEPT !.sec = ExpandLabel(s.hash, st.sec, "traffic upd", "", HLen(s.hash)), !.n = 0, !.hs = BCat(st.hs, x.pt)], Tail(R))
             ELSE IF x.typ = 22 THEN Apply(s, [next EXCEPT !.hs = BCat(st.hs, x.pt)], Tail(R))
             ELSE [st EXCEPT !.ok = FALSE]
AppFrom(sec, n) == [ok |-> TRUE, sec |-> sec, n |-> n, data |-> "", hs |-> ""]

\* messages of one side between its hello and Finished, without those
Find(M, t) == IF \E i \in DOMAIN M : M[i].typ = t THEN CHOOSE i \in DOMAIN M : M[i].typ = t ELSE 0
Raws(M, a, b) == BCatSeq([i \in 1..(b - a + 1) |-> M[a + i - 1].raw])
CvText(who, msgs, h) == BCatSeq(<<BRep(32, 64), BAscii("TLS 1.3, " \o who \o " CertificateVerify"), "00", Hash(h, msgs)>>)
\* the certificate and CertificateVerify, if any, and Finished of one side
AuthOk13(h, who, M, before, secret, offered) ==
    LET c == Find(M, 11)
        v == Find(M, 15)
        f == Len(M)
        C == Certs13(M[c])
        upto(i) == BCat(before, Raws(M, 1, i))
    IN  /\ M[f].typ = 20 /\ M[f].body = FinMac(h, secret, upto(f - 1))
        /\ (c = 0) = (v = 0)
        /\ c # 0 => /\ v = c + 1 /\ v = f - 1
                    /\ ChainOk(C)
                    /\ U16(M[v].body, 0) \in offered
                    /\ SignedBy(772, C[1], M[v].body, CvText(who, upto(c), h))
\* the pre-shared keys a hello refers to
RECURSIVE Idents(_)
Idents(b) == IF b = "" THEN << >> ELSE <<BSub(b, 2, U16(b, 0))>> \o Idents(BTail(b, 6 + U16(b, 0)))
PskExt(ch) == Ext(ch, 41)
BindersLen(ch) == LET n == U16(PskExt(ch), 0) IN 2 + U16(PskExt(ch), 2 + n)
PsksOf(ch, known) == {p \in known : Idents(BSub(PskExt(ch), 2, U16(PskExt(ch), 0)))[1] = p.ticket}
BinderOk(ch, p, pre) ==
    LET b == PskExt(ch)
        n == U16(b, 0)
        cut == BHead(ch.raw, BLen(ch.raw) - BindersLen(ch))
    IN  BSub(b, 5 + n, BAt(b, 4 + n)) = FinMac(p.hash, Derive(p.hash, Early(p.hash, p.psk), "res binder", ""), BCat(pre, cut))
Tickets13(h, res, hs) ==
    LET M == Msgs(hs)
        T(m) == LET l == BAt(m.body, 8)
                IN  [ticket |-> BSub(m.body, 11 + l, U16(m.body, 9 + l)), hash |-> h, psk |-> ExpandLabel(h, res, "resumption", BSub(m.body, 9, l), HLen(h))]
    IN  {T(M[i]) : i \in {i \in DOMAIN M : M[i].typ = 4}}
SuiteBy(id) == CHOOSE n \in DOMAIN Suites : Suites[n].id = id
HrrRandom == "cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c"
\* keys exported with a context given or not, of a length asked for
XLen(e) == IF "xlen" \in DOMAIN e THEN e.xlen ELSE 40
XNone(e) == "xnone" \in DOMAIN e /\ e.xnone
XCtx(e) == IF XNone(e) THEN "" ELSE IF "xctx" \in DOMAIN e THEN e.xctx ELSE BAscii("context")
Exported13(e, h, main, msgs) ==
    ExpandLabel(h, Derive(h, Derive(h, main, "exp master", msgs), "EXPORTER-vp", ""), "exporter", Hash(h, XCtx(e)), XLen(e))

\* what a completed connection leaves behind: a set of states, empty if it is not as defined
Conn13(e, ch, CH, SH, sh, known) ==
    LET n == SuiteBy(CHOOSE i \in sh.suites : TRUE)
        s == Suites[n]
        h == s.hash
        retry == Len(CH) = 2
        pre == IF retry THEN BCatSeq(<<"fe0000", DByte(HLen(h)), Hash(h, CH[1].raw), SH[1].raw>>) ELSE ""
        t0 == BCatSeq(<<pre, ch.raw, sh.raw>>)
        share == Ext(sh, 51)
        g == CHOOSE x \in Groups : GroupId[x] = U16(share, 0)
        mine == {x.k : x \in {x \in Shares(BTail(Ext(ch, 51), 2)) : x.g = U16(share, 0)}}
        drawn == Flights(e, "c")[Len(CH)].drawn
        sss == UNION {Agreed(g, drawn, k, BSub(share, 4, U16(share, 2))) : k \in mine}
        psks == IF HasExt(sh, 41) THEN {p \in PsksOf(ch, known) : p.hash = h} ELSE {[ticket |-> "", hash |-> h, psk |-> ""]}
        cr == OfType(Recs(Wire(e, "c")), 23)
        sr == OfType(Recs(Wire(e, "s")), 23)
        After(ss, p) ==
            LET hs == HsSecret(h, p.psk, ss)
                chs == Derive(h, hs, "c hs traffic", t0)
                shs == Derive(h, hs, "s hs traffic", t0)
                sf == ToFinished(s, TKey(s, shs), TIv(s, shs), sr, 0, "")
                cf == ToFinished(s, TKey(s, chs), TIv(s, chs), cr, 0, "")
                t1 == BCat(t0, sf.hs)
                t2 == BCat(t1, cf.hs)
                main == MainSecret(h, hs)
                res == Derive(h, main, "res master", t2)
                ca == Apply(s, AppFrom(Derive(h, main, "c ap traffic", t1), 0), SubSeq(cr, cf.n + 1, Len(cr)))
                sa == Apply(s, AppFrom(Derive(h, main, "s ap traffic", t1), 0), SubSeq(sr, sf.n + 1, Len(sr)))
                SM == Msgs(sf.hs)
                CM == Msgs(cf.hs)
                asked == Find(SM, 13)
                crqe == Exts(BTail(SM[asked].body, 3 + BAt(SM[asked].body, 0)))
                auth == SelectSeq(crqe, LAMBDA x : x.typ = 13)
            IN  IF ~sf.ok THEN {} ELSE IF ~cf.ok THEN {} ELSE IF ~ca.ok \/ ~sa.ok THEN {}
                ELSE IF ~( /\ AuthOk13(h, "server", SM, t0, shs, Offered(ch))
                           /\ (Find(SM, 11) = 0) = HasExt(sh, 41)
                           /\ AuthOk13(h, "client", CM, t1, chs, IF asked = 0 THEN {} ELSE U16s(BTail(auth[1].body, 2)))
                           /\ (Find(CM, 11) # 0) = (asked # 0)
                           /\ e.cexp = Exported13(e, h, main, t1) /\ e.sexp = e.cexp
                           /\ ca.data = "" /\ sa.data = "" /\ Whole(sa.hs) /\ ca.hs = "") THEN {}
                ELSE {[t |-> "pair", ver |-> 772, due |-> {}, suite |-> n, c |-> [sec |-> ca.sec, n |-> ca.n], s |-> [sec |-> sa.sec, n |-> sa.n],
                       known |-> known \cup Tickets13(h, res, sa.hs)]}
    IN  IF ~( /\ s.ver = 772 /\ s.id \in ch.suites /\ GroupId[g] \in GroupsOf(ch)
              /\ e.csuite = n /\ e.ssuite = n /\ e.cgroup = g /\ e.sgroup = g
              /\ Ext(sh, 43) = "0304"
              /\ (retry => SH[1].body # "" /\ Hello(SH[1], FALSE).random = HrrRandom)
              /\ (HasExt(ch, 41) => \A p \in PsksOf(ch, known) : BinderOk(ch, p, pre))) THEN {}
        ELSE UNION {After(ss, p) : ss \in sss, p \in psks}

\* ---- TLS 1.2
Prf12(h, secret, label, seed, n) == Tls12Prf(h, secret, BAscii(label), seed, n)
Exported12(e, h, ms, cr, sr) ==
    Prf12(h, ms, "EXPORTER-vp", BCatSeq(<<cr, sr, IF XNone(e) THEN "" ELSE B16(BLen(XCtx(e))), XCtx(e)>>), XLen(e))
KeyBlock(s, ms, cr, sr) ==
    LET il == IF s.aead = "gcm" THEN 4 ELSE 12
        b == Prf12(s.hash, ms, "key expansion", BCat(sr, cr), 2 * (s.klen + il))
    IN  [ck |-> BHead(b, s.klen), sk |-> BSub(b, s.klen, s.klen), civ |-> BSub(b, 2 * s.klen, il), siv |-> BSub(b, (2 * s.klen) + il, il)]
RECURSIVE Apply12(_, _, _)
Apply12(s, st, R) ==
    IF R = << >> THEN st
    ELSE LET x == RecOpen(s, st.k, st.iv, Seq8(st.n), R[1].typ, 771, R[1].body)
         IN  IF x.r # "ok" THEN [st EXCEPT !.ok = FALSE]
             ELSE IF R[1].typ = 23 THEN Apply12(s, [st EXCEPT !.n = st.n + 1, !.data = BCat(st.data, x.pt)], Tail(R))
             ELSE IF R[1].typ = 22 THEN Apply12(s, [st EXCEPT !.n = st.n + 1, !.hs = BCat(st.hs, x.pt)], Tail(R))
             ELSE [st EXCEPT !.ok = FALSE]
\* records before and after ChangeCipherSpec
CcsAt(R) == CHOOSE i \in DOMAIN R : R[i].typ = 20 /\ \A j \in 1..(i - 1) : R[j].typ # 20
Before(R) == SubSeq(R, 1, CcsAt(R) - 1)
AfterCcs(R) == SubSeq(R, CcsAt(R) + 1, Len(R))
Conn12(e, ch, sh, known) ==
    LET n == SuiteBy(CHOOSE i \in sh.suites : TRUE)
        s == Suites[n]
        h == s.hash
        cR == Recs(Wire(e, "c"))
        sR == Recs(Wire(e, "s"))
        CM == Msgs(Bodies(Before(cR)))
        SM == Msgs(Bodies(Before(sR)))
        full == Find(SM, 11) # 0
        ems == HasExt(sh, 23) /\ HasExt(ch, 23)
        \* server: ServerHello Certificate ServerKeyExchange [CertificateRequest] ServerHelloDone | [NewSessionTicket]
        done == IF full THEN Find(SM, 14) ELSE 1
        ske == SM[Find(SM, 12)].body
        plen == 4 + BAt(ske, 3)
        C == Certs12(SM[Find(SM, 11)])
        g == CHOOSE x \in Groups : GroupId[x] = U16(ske, 1)
        cke == CM[Find(CM, 16)].body
        drawn == Flights(e, "c")[2].drawn
        asked == Find(SM, 13) # 0
        cv == Find(CM, 15)
        flight1 == BCat(CM[1].raw, Raws(SM, 1, done))
        thruCke == BCat(flight1, Raws(CM, 2, Find(CM, 16)))
        thruCm == BCat(flight1, Raws(CM, 2, Len(CM)))
        nst == Find(SM, 4)
        nstRaw == IF nst = 0 THEN "" ELSE SM[nst].raw
        masters ==
            IF full THEN {IF ems THEN Prf12(h, pms, "extended master secret", Hash(h, thruCke), 48)
                          ELSE Prf12(h, pms, "master secret", BCat(ch.random, sh.random), 48) :
                              pms \in Agreed(g, drawn, BTail(cke, 1), BSub(ske, 4, BAt(ske, 3)))}
            ELSE {p.psk : p \in {p \in known : p.hash = n}}
        Fin(ms, who, msgs) == BCat("1400000c", Prf12(h, ms, who \o " finished", Hash(h, msgs), 12))
        Aft(ms) ==
            LET b == KeyBlock(s, ms, ch.random, sh.random)
                c == Apply12(s, [ok |-> TRUE, k |-> b.ck, iv |-> b.civ, n |-> 0, data |-> "", hs |-> ""], AfterCcs(cR))
                v == Apply12(s, [ok |-> TRUE, k |-> b.sk, iv |-> b.siv, n |-> 0, data |-> "", hs |-> ""], AfterCcs(sR))
                early == BCatSeq(<<CM[1].raw, Raws(SM, 1, 1), nstRaw>>)
            IN  IF ~c.ok \/ ~v.ok THEN {}
                ELSE IF ~( /\ IF full THEN /\ c.hs = Fin(ms, "client", thruCm)
                                           /\ v.hs = Fin(ms, "server", BCatSeq(<<thruCm, c.hs, nstRaw>>))
                              ELSE /\ v.hs = Fin(ms, "server", early)
                                   /\ c.hs = Fin(ms, "client", BCat(early, v.hs))
                           /\ c.data = "" /\ v.data = ""
                           /\ e.cexp = Exported12(e, h, ms, ch.random, sh.random) /\ e.sexp = e.cexp) THEN {}
                ELSE {[t |-> "pair", ver |-> 771, due |-> {}, suite |-> n, c |-> [k |-> b.ck, iv |-> b.civ, n |-> c.n], s |-> [k |-> b.sk, iv |-> b.siv, n |-> v.n],
                       known |-> known \cup {[ticket |-> "", hash |-> n, psk |-> ms]}]}
    IN  IF ~( /\ s.ver = 771 /\ s.id \in ch.suites /\ e.csuite = n /\ e.ssuite = n
              /\ (full => /\ e.cgroup = g /\ e.sgroup = g /\ GroupId[g] \in GroupsOf(ch)
                          /\ ChainOk(C) /\ U16(ske, plen) \in Offered(ch)
                          /\ SpkiOf(C[1]).alg \in (IF s.sig = "rsa" THEN {PkAlgRsa} ELSE {PkAlgEc("p256"), PkAlgEc("p384"), AlgEd})
                          /\ SignedBy(771, C[1], BTail(ske, plen), BCatSeq(<<ch.random, sh.random, BHead(ske, plen)>>))
                          /\ (Find(CM, 11) # 0) = asked /\ (cv # 0) = asked
                          /\ (asked => /\ ChainOk(Certs12(CM[Find(CM, 11)]))
                                       /\ SignedBy(771, Certs12(CM[Find(CM, 11)])[1], CM[cv].body, BCat(flight1, Raws(CM, 2, cv - 1)))))) THEN {}
        ELSE UNION {Aft(ms) : ms \in masters}

\* in TLS 1.3 the hellos are all there is of type 22, in TLS 1.2 there are encrypted ones
ConnStates(e, known) ==
    LET cR == Recs(Wire(e, "c"))
        sR == Recs(Wire(e, "s"))
        CH == Msgs(Bodies(OfType(cR, 22)))
        SH == Msgs(Bodies(OfType(sR, 22)))
    IN  IF HasExt(Hello(Msgs(OfType(sR, 22)[1].body)[1], FALSE), 43)
        THEN Conn13(e, Hello(CH[Len(CH)], TRUE), CH, SH, Hello(SH[Len(SH)], FALSE), known)
        ELSE Conn12(e, Hello(Msgs(Bodies(Before(cR)))[1], TRUE), Hello(Msgs(Bodies(Before(sR)))[1], FALSE), known)
PairKinds == [full |-> "Full", retry |-> "FullWithHelloRetryRequest", resume |-> "Resumed"]
TPair(e) ==
    /\ e.op = "tls.pair"
    /\ ("like" \in DOMAIN e => Is(e.like, "pair"))
    /\ IF RngFailed(e)
       THEN \* (a TLS 1.2 server that cannot seal a ticket sends an empty one and goes on)
            (AnyErr(e) \/ (Ok(e) /\ (~(e.cdone /\ e.sdone) \/ (e.cver = 12 /\ "tickets" \in DOMAIN e)))) /\ Same
       ELSE IF e.want = "any"
       THEN Ok(e) /\ e.cdone /\ e.sdone /\ \E st \in ConnStates(e, {}) : Put(e.h, st)
       ELSE IF e.want = "fail"
       THEN Ok(e) /\ ~e.cdone /\ ~e.sdone /\ (e.cerr \o e.serr # "" \/ "flip" \in DOMAIN e) /\ Same
       ELSE /\ Ok(e) /\ e.cdone /\ e.sdone /\ e.cerr = "" /\ e.serr = ""
            /\ e.ckind = PairKinds[e.want] /\ e.skind = PairKinds[e.want]
            /\ \E st \in ConnStates(e, IF "like" \in DOMAIN e THEN objs[e.like].known ELSE {}) : Put(e.h, st)
\* data (and key updates) on a connection; what is sent is what is received.  A
\* KeyUpdate that asks for one back is answered before the other side's next data.
KeyUpdated(asks) == IF asks THEN "1800000101" ELSE "1800000100"
TPairData(e) ==
    /\ e.op = "tls.pairdata" /\ Is(e.h, "pair") /\ Ok(e)
    /\ LET o == objs[e.h]
           s == Suites[o.suite]
           cR == Recs(Wire(e, "c"))
           sR == Recs(Wire(e, "s"))
           c == IF o.ver = 772 THEN Apply(s, AppFrom(o.c.sec, o.c.n), cR) ELSE Apply12(s, [ok |-> TRUE, k |-> o.c.k, iv |-> o.c.iv, n |-> o.c.n, data |-> "", hs |-> ""], cR)
           v == IF o.ver = 772 THEN Apply(s, AppFrom(o.s.sec, o.s.n), sR) ELSE Apply12(s, [ok |-> TRUE, k |-> o.s.k, iv |-> o.s.iv, n |-> o.s.n, data |-> "", hs |-> ""], sR)
           x == IF e.who = "c" THEN c ELSE v
           y == IF e.who = "c" THEN v ELSE c
           spoilt == "flip" \in DOMAIN e
       IN  IF spoilt
           THEN \* a modified record: the receiver fails and has no more than what came before
                /\ (IF e.who = "c" THEN e.serr ELSE e.cerr) # "" /\ e.out = "" /\ Del(e.h)
           ELSE /\ c.ok /\ v.ok /\ e.cerr = "" /\ e.serr = ""
                /\ x.data = e.m /\ y.data = "" /\ e.out = e.m /\ e.back = ""
                /\ x.hs = BCat(IF e.who \in o.due THEN KeyUpdated(FALSE) ELSE "", IF Fld(e, "rekey", FALSE) THEN KeyUpdated(TRUE) ELSE "")
                /\ y.hs = ""
                /\ objs' = (e.h :> (IF o.ver = 772 THEN [o EXCEPT !.c = [sec |-> c.sec, n |-> c.n], !.s = [sec |-> v.sec, n |-> v.n],
                                                                   !.due = (o.due \ {e.who}) \cup (IF Fld(e, "rekey", FALSE) THEN {IF e.who = "c" THEN "s" ELSE "c"} ELSE {})]
                                    ELSE [o EXCEPT !.c.n = c.n, !.s.n = v.n])) @@ objs
PairNext(e) == TPair(e) \/ TPairData(e)
=============================================================================
