------------------------------- MODULE EcCases -------------------------------
(* Boundary scalars and points of P-256 and P-384, shared by the generators.   *)
EXTENDS Gen, Ec

Curves == {"p256", "p384"}
N(c) == Curve(c).n
P(c) == Curve(c).p
L(c) == Curve(c).len

\* points with a small y coordinate (x found by factoring the cubic)
SmallY(c) == IF c = "p256" THEN
  << <<"8d0177ebab9c6e9e10db6dd095dbac0d6375e8a97b70f611875d877f0069d2c7", "1">>,
     <<"9e78d4ef60d05f750f6636209092bc43cbdd6b47e11a9de20a9feb2a50bb96c", "1">>,
     <<"7fafb72b9e2f17b87cc216b6785c0bfc860ed577216fd3c8f30a7a8707e613ca", "4">> >>
  ELSE
  << <<"2261b2bf605c22f2f3aef6338719b2c486388ad5240719a5257315969ef01ba27f0a104c89704773a81fdabee6ab5c78", "1">>,
     <<"742b1363c46dbf7b0856f75f64c464dcbe246ff7966c1498faa711c4cf9c00f1e800d93cc04a3455923800cf11c812f4", "2">>,
     <<"5c72f3f4e3a89d0022820e5b5f6e798b73805fb7c97376af45cffac060745189cf07144ffc41a26795b331199159f9c", "4">> >>
ASSUME \A c \in Curves : \A i \in 1..3 : OnCurve(c, SmallY(c)[i])

\* digit patterns: window w (b bits) holds (s + w) mod 2^b: over all s, every
\* digit occurs in every window
RECURSIVE DigitsN(_, _, _, _)
DigitsN(b, s, w, bits) == IF w * b >= bits THEN "0"
    ELSE NAdd(NMul(NInt((s + w) % (2 ^ b)), NPow2(w * b)), DigitsN(b, s, w + 1, bits))
Pattern(c, b, s) == NMod(DigitsN(b, s, 0, 8 * L(c)), N(c))

\* 64-bit limbs all zero, all one, ...: carries and borrows
LimbV == <<"0000000000000000", "ffffffffffffffff", "0000000000000001", "8000000000000000", "fffffffffffffffe", "00000000ffffffff", "ffffffff00000000">>
RndLimbs(l, len) == BCatSeq([j \in 1..(len \div 8) |-> LimbV[1 + RndN(<<l, j>>, 7)]])
LimbScalar(c, l) == OS2N(RndLimbs(l, L(c)))

\* a valid x coordinate near a given one
RECURSIVE NextX(_, _)
NextX(c, x) == IF EcHasY(c, x) THEN x ELSE NextX(c, NMod(NAdd(x, "1"), P(c)))
RECURSIVE PrevX(_, _)
PrevX(c, x) == IF EcHasY(c, x) THEN x ELSE PrevX(c, NSub(x, "1"))
Flip(c, Q, b) == IF b = 1 THEN EcNeg(c, Q) ELSE Q
=============================================================================
