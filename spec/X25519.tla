-------------------------------- MODULE X25519 --------------------------------
(* X25519, RFC 7748 section 5.                                                *)
EXTENDS Prim

P25519 == NSub(NPow2(255), "13")
FAdd(a, b) == NAddMod(a, b, P25519)
FSub(a, b) == NSubMod(a, b, P25519)
FMul(a, b) == NMulMod(a, b, P25519)

RECURSIVE LadderLoop(_, _, _, _)
LadderLoop(k, x1, t, s) ==      \* s = <<x2, z2, x3, z3, swap>>
    IF t < 0
    THEN IF s[5] = 1 THEN <<s[3], s[4]>> ELSE <<s[1], s[2]>>
    ELSE LET kt == NBit(k, t)
             sw == s[5] # kt
             x2 == IF sw THEN s[3] ELSE s[1]   z2 == IF sw THEN s[4] ELSE s[2]
             x3 == IF sw THEN s[1] ELSE s[3]   z3 == IF sw THEN s[2] ELSE s[4]
             A == FAdd(x2, z2)  AA == FMul(A, A)  B == FSub(x2, z2)  BB == FMul(B, B)
             EE == FSub(AA, BB)  C == FAdd(x3, z3)  D == FSub(x3, z3)
             DA == FMul(D, A)  CB == FMul(C, B)
         IN  LadderLoop(k, x1, t - 1,
               << FMul(AA, BB), FMul(EE, FAdd(AA, FMul("1db41", EE))),
                  FMul(FAdd(DA, CB), FAdd(DA, CB)),
                  FMul(x1, FMul(FSub(DA, CB), FSub(DA, CB))), kt >>)

X25519Ladder(k, u) ==
    LET r == LadderLoop(k, u, 254, <<"1", "0", u, "1", 0>>)
    IN  FMul(r[1], NPowMod(r[2], NSub(P25519, "2"), P25519))

Clamp(k) == BSet(BSet(k, 0, BAt(k, 0) - (BAt(k, 0) % 8)), 31, 64 + (BAt(k, 31) % 64))
DecodeU(u) == NMod(LE2N(BSet(u, 31, BAt(u, 31) % 128)), P25519)
X25519(k, u) == N2LE(X25519Ladder(LE2N(Clamp(k)), DecodeU(u)), 32)
X25519Base(k) == X25519(k, BCat("09", BZero(31)))
=============================================================================
