------------------------------- MODULE DerTrees -------------------------------
(* Key containers as trees of DER elements, each of which can be mutated in      *)
(* every way that strict DER or the key's structure forbids.                     *)
EXTENDS RsaCases, Ec, Ed25519

\* ---- trees: pre is what precedes the children inside the body
Lf(tag, body) == [tag |-> tag, pre |-> body, kids |-> << >>]
Nd(tag, pre, kids) == [tag |-> tag, pre |-> pre, kids |-> kids]
RECURSIVE Enc(_)
Body(t) == BCat(t.pre, BCatSeq([i \in 1..Len(t.kids) |-> Enc(t.kids[i])]))
Enc(t) == DTlv(t.tag, Body(t))
RECURSIVE Paths(_)
Paths(t) == {<< >>} \cup UNION {{<<i>> \o p : p \in Paths(t.kids[i])} : i \in 1..Len(t.kids)}
NMut == 44
Mut(t, m) ==
  LET b == Body(t)  n == BLen(b)  g == DByte(t.tag)  e == Enc(t)
      lie(k) == BCatSeq(<<g, DLen(k), b>>)
  IN
  CASE m = 1 -> BCatSeq(<<g, BOf(<<129, n % 256>>), b>>)
    [] m = 2 -> BCatSeq(<<g, BOf(<<130, n \div 256, n % 256>>), b>>)
    [] m = 3 -> BCatSeq(<<g, BOf(<<131, 0, n \div 256, n % 256>>), b>>)
    [] m = 4 -> BCatSeq(<<g, BOf(<<132, 0, 0, n \div 256, n % 256>>), b>>)
    [] m = 5 -> BCatSeq(<<g, "80", b, "0000">>)
    [] m = 6 -> BCatSeq(<<g, "80", b>>)
    [] m = 7 -> lie(n + 1)
    [] m = 8 -> lie(Max(n - 1, 0))
    [] m = 9 -> lie(0)
    [] m = 10 -> BCatSeq(<<g, "7f", b>>)
    [] m = 11 -> BCatSeq(<<g, "82ffff", b>>)
    [] m = 12 -> BCatSeq(<<g, "84ffffffff", b>>)
    [] m = 13 -> BCatSeq(<<g, "88ffffffffffffffff", b>>)
    [] m = 14 -> BCatSeq(<<g, "ff", b>>)
    [] m = 15 -> g
    [] m = 16 -> BCat(g, "81")
    [] m = 17 -> BCat(g, "8201")
    [] m = 18 -> DTlv(t.tag, "")
    [] m = 19 -> DTlv(t.tag, BCat(b, "00"))
    [] m = 20 -> DTlv(t.tag, BCat("00", b))
    [] m = 21 -> DTlv(t.tag, BCat("ff", b))
    [] m = 22 -> DTlv(t.tag, BCat("01", b))
    [] m = 23 -> DTlv(t.tag, IF n = 0 THEN "" ELSE BHead(b, n - 1))
    [] m = 24 -> DTlv(t.tag, IF n = 0 THEN "" ELSE BTail(b, 1))
    [] m = 25 -> DTlv(t.tag, IF n = 0 THEN "01" ELSE BFlip(b, 0))
    [] m = 26 -> DTlv(t.tag, IF n = 0 THEN "80" ELSE BFlip(b, 7))
    [] m = 27 -> DTlv(t.tag, IF n = 0 THEN "0500" ELSE BFlip(b, 8 * (n - 1)))
    [] m = 28 -> DTlv(t.tag, IF n = 0 THEN "00" ELSE BFlip(b, 8 * (n - 1) + 7))
    [] m = 29 -> DTlv((t.tag + 32) % 256, b)
    [] m = 30 -> DTlv((t.tag + 128) % 256, b)
    [] m = 31 -> DTlv((t.tag + 64) % 256, b)
    [] m = 32 -> DTlv((t.tag + 1) % 256, b)
    [] m = 33 -> DTlv(t.tag - 1, b)
    [] m = 34 -> DTlv(31, b)
    [] m = 35 -> ""
    [] m = 36 -> BCat(e, e)
    [] m = 37 -> BCat(e, DNull)
    [] m = 38 -> BCat(DNull, e)
    [] m = 39 -> BCat(e, "00")
    [] m = 40 -> BCat(e, "0000")
    [] m = 41 -> BCat(e, "a000")
    [] m = 42 -> BCat(e, "8100")
    [] m = 43 -> DTlv(t.tag, e)
    [] m = 44 -> DTlv(48, e)
RECURSIVE EncM(_, _, _)
EncM(t, p, m) ==
  IF p = << >> THEN Mut(t, m)
  ELSE DTlv(t.tag, BCat(t.pre, BCatSeq([i \in 1..Len(t.kids) |-> IF i = p[1] THEN EncM(t.kids[i], Tail(p), m) ELSE Enc(t.kids[i])])))

\* ---- containers
I(n) == Lf(2, DIntBody(n))
O(o) == Lf(6, o)
NullT == Lf(5, "")
Sec1T(c, d, params, pub) ==
  Nd(48, "", <<I("1"), Lf(4, N2OS(d, Curve(c).len))>> \o (IF params THEN <<Nd(160, "", <<O(OidCurve(c))>>)>> ELSE << >>)
             \o (IF pub = "" THEN << >> ELSE <<Nd(161, "", <<Lf(3, BCat("00", pub))>>)>>))
AlgT(oid, ps) == Nd(48, "", <<O(oid)>> \o ps)
P8T(ver, alg, inner, pub) == Nd(48, "", <<I(ver), alg, Nd(4, "", <<inner>>)>> \o (IF pub = "" THEN << >> ELSE <<Lf(129, BCat("00", pub))>>))
EcAlgT(c) == AlgT(OidEc, <<O(OidCurve(c))>>)
EdAlgT == AlgT(OidEd25519, << >>)
RsaAlgT == AlgT(OidRsa, <<NullT>>)
RsaT(k) == Nd(48, "", <<I("0"), I(k.n), I(k.e), I(k.d), I(k.p), I(k.q), I(k.dp), I(k.dq), I(k.iqmp)>>)
RsaPubT(k) == Nd(48, "", <<I(k.n), I(k.e)>>)

Sk(c) == IF c = "p256" THEN "c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721" ELSE "6b9d3dad2e1b8c1c05b19875b6659f4de23c3b667bf297ba9aa47740787137d896d5724e4c70a825f872c9ea60d2edf5"
Qc(c) == EcPub(c, Sk(c))
EdSeed == "9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60"
K0 == Keys["b2048"]
Trees == [
  sec1_256 |-> Sec1T("p256", Sk("p256"), TRUE, Qc("p256")),
  sec1_384 |-> Sec1T("p384", Sk("p384"), TRUE, Qc("p384")),
  sec1_bare |-> Sec1T("p256", Sk("p256"), FALSE, ""),
  p8_256 |-> P8T("0", EcAlgT("p256"), Sec1T("p256", Sk("p256"), FALSE, Qc("p256")), ""),
  p8_384 |-> P8T("0", EcAlgT("p384"), Sec1T("p384", Sk("p384"), FALSE, Qc("p384")), ""),
  p8_256full |-> P8T("1", EcAlgT("p256"), Sec1T("p256", Sk("p256"), TRUE, Qc("p256")), Qc("p256")),
  p8_384v2 |-> P8T("1", EcAlgT("p384"), Sec1T("p384", Sk("p384"), FALSE, ""), Qc("p384")),
  p8_ed1 |-> P8T("0", EdAlgT, Lf(4, EdSeed), ""),
  p8_ed2 |-> P8T("1", EdAlgT, Lf(4, EdSeed), EdPublic(EdSeed)),
  spki_ed |-> Nd(48, "", <<EdAlgT, Lf(3, BCat("00", EdPublic(EdSeed)))>>),
  spki_256 |-> Nd(48, "", <<EcAlgT("p256"), Lf(3, BCat("00", Qc("p256")))>>),
  spki_rsa |-> Nd(48, "", <<RsaAlgT, Nd(3, "00", <<RsaPubT(K0)>>)>>),
  rsa1 |-> RsaT(K0),
  p8_rsa |-> P8T("0", RsaAlgT, RsaT(K0), ""),
  p8_rsa2 |-> P8T("1", RsaAlgT, RsaT(K0), RsaPubDer(K0.n, K0.e)),
  rsapub |-> RsaPubT(K0)]
=============================================================================
