------------------------------- MODULE Ed25519 -------------------------------
(* Ed25519, RFC 8032 section 5.1.  Points are affine <<x, y>> naturals.       *)
EXTENDS Prim

EdP == NSub(NPow2(255), "13")
EdL == NAdd(NPow2(252), "14def9dea2f79cd65812631a5cf5d3ed")
EdD == "52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3"
EdM(a, b) == NMulMod(a, b, EdP)
EdI == NPowMod("2", NShr(NSub(EdP, "1"), 2), EdP)         \* sqrt(-1)
EdB == << "216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a",
          "6666666666666666666666666666666666666666666666666666666666666658" >>
EdO == << "0", "1" >>

\* complete twisted Edwards addition
EdAdd(P, Q) ==
    LET xx == EdM(P[1], Q[1])  yy == EdM(P[2], Q[2])
        t == EdM(EdD, EdM(xx, yy))
        xn == NAddMod(EdM(P[1], Q[2]), EdM(P[2], Q[1]), EdP)
    IN  << EdM(xn, NInvMod(NAddMod("1", t, EdP), EdP)),
           EdM(NAddMod(yy, xx, EdP), NInvMod(NSubMod("1", t, EdP), EdP)) >>
EdNeg(P) == << NSubMod("0", P[1], EdP), P[2] >>

RECURSIVE EdMulLoop(_, _, _, _)
EdMulLoop(k, P, i, acc) ==
    IF i < 0 THEN acc
    ELSE LET d == EdAdd(acc, acc)
         IN  EdMulLoop(k, P, i - 1, IF NBit(k, i) = 1 THEN EdAdd(d, P) ELSE d)
EdMul(k, P) == EdMulLoop(k, P, NBits(k) - 1, EdO)

EdEncode(P) ==
    LET y == N2LE(P[2], 32)
    IN  BSet(y, 31, BAt(y, 31) + 128 * NBit(P[1], 0))

\* RFC 8032 5.1.3, strict: [ok, pt]
EdDecode(b) ==
    LET sign == BAt(b, 31) \div 128
        y == LE2N(BSet(b, 31, BAt(b, 31) % 128))
        y2 == EdM(y, y)
        u == NSubMod(y2, "1", EdP)
        v == NAddMod(EdM(EdD, y2), "1", EdP)
        v3 == EdM(v, EdM(v, v))
        v7 == EdM(EdM(v3, v3), v)
        c == EdM(EdM(u, v3), NPowMod(EdM(u, v7), NShr(NSub(EdP, "5"), 3), EdP))
        vx2 == EdM(v, EdM(c, c))
        x0 == IF vx2 = u THEN c
              ELSE IF vx2 = NSubMod("0", u, EdP) THEN EdM(c, EdI) ELSE "none"
        bad == [ok |-> FALSE, pt |-> EdO]
    IN  IF BLen(b) # 32 THEN bad
        ELSE IF ~NLt(y, EdP) THEN bad
        ELSE IF x0 = "none" THEN bad
        ELSE IF x0 = "0" /\ sign = 1 THEN bad
        ELSE [ok |-> TRUE,
              pt |-> << IF NBit(x0, 0) = sign THEN x0 ELSE NSub(EdP, x0), y >>]

EdSecret(seed) ==
    LET h == Hash("sha512", seed)
        a == BHead(h, 32)
    IN  [a |-> LE2N(BSet(BSet(a, 0, BAt(a, 0) - (BAt(a, 0) % 8)), 31, 64 + (BAt(a, 31) % 64))),
         prefix |-> BTail(h, 32)]
EdPublic(seed) == EdEncode(EdMul(EdSecret(seed).a, EdB))
EdChallenge(R, A, m) == NMod(LE2N(Hash("sha512", BCatSeq(<<R, A, m>>))), EdL)
EdSign(seed, A, m) ==
    LET sk == EdSecret(seed)
        r == NMod(LE2N(Hash("sha512", BCat(sk.prefix, m))), EdL)
        R == EdEncode(EdMul(r, EdB))
        S == NAddMod(r, NMulMod(EdChallenge(R, A, m), sk.a, EdL), EdL)
    IN  BCat(R, N2LE(S, 32))

\* cofactorless verification; A is known to decode
EdVerify(A, m, sig) ==
    LET R == BHead(sig, 32)
        S == LE2N(BTail(sig, 32))
        k == EdChallenge(R, A, m)
        Q == EdAdd(EdMul(S, EdB), EdMul(k, EdNeg(EdDecode(A).pt)))
    IN  IF BLen(sig) # 64 THEN FALSE
        ELSE IF ~NLt(S, EdL) THEN FALSE
        ELSE EdEncode(Q) = R
=============================================================================
