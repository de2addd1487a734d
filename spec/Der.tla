---------------------------------- MODULE Der ----------------------------------
(* DER (X.690): encoders, and a strict reader, for the ASN.1 used by keys and  *)
(* signatures.  Only definite, minimal lengths below 2^16 occur.               *)
EXTENDS Prim

DByte(v) == BOf(<<v>>)
DLen(n) == IF n < 128 THEN DByte(n)
           ELSE IF n < 256 THEN BOf(<<129, n>>)
           ELSE BOf(<<130, n \div 256, n % 256>>)
DTlv(tag, body) == BCatSeq(<<DByte(tag), DLen(BLen(body)), body>>)
DSeq(parts) == DTlv(48, BCatSeq(parts))
DIntBody(n) == LET b == IF n = "0" THEN "00" ELSE N2OS(n, (NBits(n) + 7) \div 8)
               IN  IF BAt(b, 0) >= 128 THEN BCat("00", b) ELSE b
DInt(n) == DTlv(2, DIntBody(n))
DOct(b) == DTlv(4, b)
DBit(b) == DTlv(3, BCat("00", b))
DOid(o) == DTlv(6, o)
DNull == "0500"

OidEc == "2a8648ce3d0201"
OidCurve(c) == IF c = "p256" THEN "2a8648ce3d030107" ELSE "2b81040022"
OidEd25519 == "2b6570"
OidRsa == "2a864886f70d010101"

\* ---- reading: [ok, tag, body, rest]
DBad == [ok |-> FALSE, tag |-> 0, body |-> "", rest |-> ""]
DTake(b) ==
    LET n == BLen(b)
        l0 == BAt(b, 1)
        body(h, len) == IF len > n - h THEN DBad
                        ELSE [ok |-> TRUE, tag |-> BAt(b, 0), body |-> BSub(b, h, len), rest |-> BTail(b, h + len)]
    IN  IF n < 2 THEN DBad
        ELSE IF l0 < 128 THEN body(2, l0)
        ELSE IF l0 = 129 THEN (IF n < 3 THEN DBad ELSE IF BAt(b, 2) < 128 THEN DBad ELSE body(3, BAt(b, 2)))
        ELSE IF l0 = 130 THEN (IF n < 4 THEN DBad
                               ELSE LET len == 256 * BAt(b, 2) + BAt(b, 3) IN IF len < 256 THEN DBad ELSE body(4, len))
        ELSE DBad
\* a sequence of elements filling b exactly: [ok, v]
RECURSIVE DItems(_)
DItems(b) ==
    IF b = "" THEN [ok |-> TRUE, v |-> << >>]
    ELSE LET t == DTake(b)
             r == DItems(t.rest)
         IN  IF ~t.ok THEN [ok |-> FALSE, v |-> << >>]
             ELSE IF ~r.ok THEN [ok |-> FALSE, v |-> << >>]
             ELSE [ok |-> TRUE, v |-> << [tag |-> t.tag, body |-> t.body] >> \o r.v]
\* b is exactly one SEQUENCE
DReadSeq(b) ==
    LET t == DTake(b)
    IN  IF ~t.ok \/ t.tag # 48 \/ t.rest # "" THEN [ok |-> FALSE, v |-> << >>] ELSE DItems(t.body)
DTag(it, i) == IF i > Len(it) THEN -1 ELSE it[i].tag
\* a non-negative, minimal INTEGER
DIsNat(x) ==
    /\ x.tag = 2 /\ BLen(x.body) > 0 /\ BAt(x.body, 0) < 128
    /\ (BLen(x.body) > 1 /\ BAt(x.body, 0) = 0 => BAt(x.body, 1) >= 128)
DNat(x) == OS2N(x.body)
DAllNat(it, lo, hi) == \A i \in lo..hi : DIsNat(it[i])
DIsBits(x, tag) == x.tag = tag /\ BLen(x.body) > 0 /\ BAt(x.body, 0) = 0
=============================================================================
