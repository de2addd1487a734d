---------------------------------- MODULE Rsa ----------------------------------
(* RSASSA-PKCS1-v1_5 and RSASSA-PSS (RFC 8017), key containers.                *)
EXTENDS Prim, Der

HLen(h) == CASE h = "sha256" -> 32 [] h = "sha384" -> 48 [] h = "sha512" -> 64
OidHash(h) == CASE h = "sha256" -> "608648016503040201" [] h = "sha384" -> "608648016503040202" [] h = "sha512" -> "608648016503040203"
DigestInfo(h, v) == DSeq(<<DSeq(<<DOid(OidHash(h)), DNull>>), DOct(v)>>)
ModLen(n) == (NBits(n) + 7) \div 8

\* 9.2
EmsaPkcs1(h, m, k) ==
    LET t == DigestInfo(h, Hash(h, m)) IN BCatSeq(<<"0001", BRep(255, k - BLen(t) - 3), "00", t>>)

\* B.2.1
RECURSIVE MgfBlocks(_, _, _, _)
MgfBlocks(h, seed, i, len) == IF i * HLen(h) >= len THEN << >>
    ELSE <<Hash(h, BCat(seed, N2OS(NInt(i), 4)))>> \o MgfBlocks(h, seed, i + 1, len)
Mgf1(h, seed, len) == BHead(BCatSeq(MgfBlocks(h, seed, 0, len)), len)

\* 9.1, sLen = hLen.  The encoded message has emBits = modBits - 1
PssLen(n) == (NBits(n) + 6) \div 8
TopMask(n) == 2 ^ (8 - (8 * PssLen(n) - (NBits(n) - 1))) - 1     \* bits allowed in the first octet
PssHash(h, m, salt) == Hash(h, BCatSeq(<<BZero(8), Hash(h, m), salt>>))
EmsaPss(h, m, n, salt) ==
    LET emLen == PssLen(n)
        H == PssHash(h, m, salt)
        db == BCatSeq(<<BZero(emLen - 2 * HLen(h) - 2), "01", salt>>)
        mdb == BXor(db, Mgf1(h, H, BLen(db)))
    IN  BCatSeq(<<BSet(mdb, 0, BAt(mdb, 0) % (TopMask(n) + 1)), H, "bc">>)
PssOk(h, m, n, em) ==
    LET emLen == PssLen(n)  hl == HLen(h)
        mdb == BHead(em, emLen - hl - 1)
        H == BSub(em, emLen - hl - 1, hl)
        db0 == BXor(mdb, Mgf1(h, H, BLen(mdb)))
        db == BSet(db0, 0, BAt(db0, 0) % (TopMask(n) + 1))
        z == emLen - 2 * hl - 2
    IN  /\ BAt(em, emLen - 1) = 188
        /\ BAt(mdb, 0) <= TopMask(n)
        /\ BHead(db, z) = BZero(z) /\ BAt(db, z) = 1
        /\ H = PssHash(h, m, BTail(db, z + 1))

RsaVerify(n, e, pad, h, m, sig) ==
    LET k == ModLen(n)
        s == OS2N(sig)
        v == NPowMod(s, e, n)
    IN  IF BLen(sig) # k THEN FALSE
        ELSE IF ~NLt(s, n) THEN FALSE
        ELSE IF pad = "pkcs1" THEN N2OS(v, k) = EmsaPkcs1(h, m, k)
        ELSE IF NBits(v) > 8 * PssLen(n) THEN FALSE
        ELSE PssOk(h, m, n, N2OS(v, PssLen(n)))

\* out is the signature of m: its length, range and e-th power determine it
RsaSigIs(n, e, pad, h, m, salt, out) ==
    IF BLen(out) # ModLen(n) THEN FALSE
    ELSE IF ~NLt(OS2N(out), n) THEN FALSE
    ELSE NPowMod(OS2N(out), e, n) = OS2N(IF pad = "pkcs1" THEN EmsaPkcs1(h, m, ModLen(n)) ELSE EmsaPss(h, m, n, salt))

\* ---- keys
RsaPubDer(n, e) == DSeq(<<DInt(n), DInt(e)>>)
RsaAlg == DSeq(<<DOid(OidRsa), DNull>>)
RsaSpkiDer(n, e) == DSeq(<<RsaAlg, DBit(RsaPubDer(n, e))>>)
RsaPrivDer(k) == DSeq(<<DInt("0"), DInt(k.n), DInt(k.e), DInt(k.d), DInt(k.p), DInt(k.q), DInt(k.dp), DInt(k.dq), DInt(k.iqmp)>>)
RsaPkcs8Der(k) == DSeq(<<DInt("0"), RsaAlg, DOct(RsaPrivDer(k))>>)
RsaKey(p, q, e) ==
    LET p1 == NSub(p, "1")  q1 == NSub(q, "1")  d == NInvMod(e, NMul(p1, q1))
    IN  [n |-> NMul(p, q), e |-> e, d |-> d, p |-> p, q |-> q, dp |-> NMod(d, p1), dq |-> NMod(d, q1), iqmp |-> NInvMod(NMod(q, p), p)]
RsaRoot(k, v) == NPowMod(v, k.d, k.n)                \* RSASP1

Odd(a) == NBit(a, 0) = 1
SizeOk(n) == ModLen(n) \in 256..1024
ExpOk(e) == Odd(e) /\ e # "1"
\* the library's supported range: exponents below 2^32
PubClass(n, e) ==
    IF ~(SizeOk(n) /\ Odd(n) /\ ExpOk(e)) THEN "no"
    ELSE IF NBits(e) > 32 THEN "may" ELSE "yes"
RsaPubRead(b) ==
    LET s == DReadSeq(b)
    IN  IF ~(s.ok /\ Len(s.v) = 2) THEN [v |-> "no", n |-> "0", e |-> "0"]
        ELSE IF ~DAllNat(s.v, 1, 2) THEN [v |-> "no", n |-> "0", e |-> "0"]
        ELSE [v |-> PubClass(DNat(s.v[1]), DNat(s.v[2])), n |-> DNat(s.v[1]), e |-> DNat(s.v[2])]
\* the components fit together (RFC 8017 3.2)
Consistent(k) ==
    /\ Odd(k.p) /\ Odd(k.q) /\ k.p # "1" /\ k.q # "1" /\ k.p # k.q
    /\ NMul(k.p, k.q) = k.n
    /\ NLt(k.d, k.n) /\ NLt(k.dp, k.p) /\ NLt(k.dq, k.q) /\ NLt(k.iqmp, k.p)
    /\ LET p1 == NSub(k.p, "1")  q1 == NSub(k.q, "1")
       IN  /\ NMulMod(k.e, k.dp, p1) = "1" /\ NMulMod(k.e, k.dq, q1) = "1"
           /\ NMod(k.d, p1) = k.dp /\ NMod(k.d, q1) = k.dq
    /\ NMulMod(k.iqmp, k.q, k.p) = "1"
Balanced(k) == NBits(k.p) = NBits(k.q)
NoRsa == [v |-> "no", good |-> FALSE, k |-> [n |-> "0", e |-> "0", d |-> "0", p |-> "0", q |-> "0", dp |-> "0", dq |-> "0", iqmp |-> "0"]]
RsaPrivRead(b) ==
    LET s == DReadSeq(b)
        it == s.v
        g(i) == DNat(it[i])
        k == [n |-> g(2), e |-> g(3), d |-> g(4), p |-> g(5), q |-> g(6), dp |-> g(7), dq |-> g(8), iqmp |-> g(9)]
        c == PubClass(k.n, k.e)
    IN  IF ~(s.ok /\ Len(it) = 9) THEN NoRsa
        ELSE IF ~DAllNat(it, 1, 9) THEN NoRsa
        ELSE IF it[1].body # "00" \/ c = "no" THEN NoRsa
        ELSE LET good == Consistent(k)
             IN  [v |-> IF c = "yes" /\ good /\ Balanced(k) THEN "yes" ELSE "may", good |-> good /\ Balanced(k), k |-> k]
=============================================================================
