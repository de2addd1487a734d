--------------------------------- MODULE Laws ---------------------------------
(* The listed properties, as far as they are laws of the operators that the      *)
(* specification's actions are made of: what is sealed opens and nothing else     *)
(* does, both sides agree, what is signed verifies, encodings are canonical.      *)
(* TLC checks them as an invariant over every case; so that what the code is      *)
(* compared with has the properties itself.                                       *)
EXTENDS RsaCases
VARIABLE objs
GObs(e, f, v) == TRUE
A == INSTANCE ApiPair WITH Obs <- GObs
LawsOf == PropInt("prop")
N0 == IF Thorough THEN 12 ELSE 3
Algs == {"gcm", "chacha", "xchacha"}
NonceLen(a) == IF a = "xchacha" THEN 24 ELSE 12
Ecs == {"p256", "p384"}
RndScalarOf(n, l) == NAdd("1", NMod(OS2N(D(l, 56)), NSub(n, "1")))
Scal(c, l) == RndScalarOf(A!Curve(c).n, l)
BitsOf(b) == 0..(8 * BLen(b) - 1)
Suite(n) == A!Suites[n]
SuiteNames == DOMAIN A!Suites
Alphabet == <<"00", "01", "02", "03", "05", "30", "7f", "80", "81", "82", "ff">>
RECURSIVE Word(_, _)
Word(w, n) == IF n = 0 THEN "" ELSE BCat(Alphabet[1 + (w % 11)], Word(w \div 11, n - 1))
Pow11 == <<1, 11, 121, 1331, 14641, 161051>>

RECURSIVE ReDer(_)
ReDer(v) == IF v = << >> THEN "" ELSE BCat(A!DTlv(v[1].tag, v[1].body), ReDer(Tail(v)))
\* the product of polynomials modulo x^256 + 1, by definition
Sparse(l) == [i \in 1..256 |-> IF RndN(<<Seed, l, i>>, 32) = 0 THEN RndN(<<Seed, l, i, "v">>, 3329) ELSE 0]
RECURSIVE SumTo(_, _)
SumTo(F(_), i) == IF i = 0 THEN 0 ELSE (F(i) + SumTo(F, i - 1)) % 3329
MulMod256(f, g) ==
    LET ts == {i \in 1..256 : f[i] # 0}
        s == SetToSeq(ts)
        term(k, j) == LET i == s[j]  d == ((k - i) % 256) + 1 IN     \* f_i g_d with i-1 + d-1 = k-1 (mod 256)
                      IF (i - 1) + (d - 1) = k - 1 THEN (f[i] * g[d]) % 3329 ELSE (3329 - ((f[i] * g[d]) % 3329)) % 3329
    IN  [k \in 1..256 |-> LET F(j) == term(k, j) IN SumTo(F, Len(s))]

CasesOf(p) ==
  CASE p = 2 -> [k : {"xof"}, a : {"shake128", "shake256"}, n : {0, 1, 135, 136, 137, 167, 168, 169, 400}]
    [] p = 3 -> [k : {"hmackey"}, a : {"sha256", "sha384", "sha512"}, n : {0, 1, 63, 64, 65, 127, 128, 129, 200}]
    [] p \in {4, 5} -> [k : {"aead"}, a : Algs, n : {0, 1, 15, 16, 17, 33}, d : {0, 1, 16, 20}, f : {0, 1}]
         \cup [k : {"long"}, a : Algs, z : {0, 1, 2, 3, 8, 21}, w : {0, 1, 16, 20}]
    [] p = 6 -> [k : {"x"}, i : 1..(4 * N0)]
    [] p = 7 -> [k : {"dh"}, c : Ecs, i : 1..(3 * N0)] \cup [k : {"point"}, c : Ecs, i : 1..(3 * N0)]
    [] p \in {8, 9} -> [k : {"ecdsa"}, c : Ecs, h : {"sha256", "sha384", "sha512"}, i : 1..N0]
    [] p = 10 -> [k : {"ed"}, i : 1..(2 * N0)]
    [] p \in {11, 12} -> [k : {"rsa"}, nm : {"b2048", "x2047", "b2049", "b2041"}, pad : {"pkcs1", "pss"}, h : {"sha256", "sha384", "sha512"}]
    [] p = 13 -> [k : {"rsakey"}, nm : DOMAIN RsaPrimes \ {"b8192", "b8191", "b8193", "b6144"}]
    [] p = 14 -> [k : {"kem"}, i : 1..N0] \cup [k : {"ring"}, i : 1..(IF Thorough THEN 4 ELSE 0)]
    [] p = 15 -> [k : {"der"}, n : 0..4] \cup [k : {"eckey"}, c : Ecs, i : 1..N0] \cup [k : {"edkey"}, i : 1..N0] \cup [k : {"rsader"}, nm : {"b2048", "x2047", "b3072"}]
    [] p = 20 -> [k : {"record"}, n : SuiteNames, l : {0, 1, 16, 40}]
    [] p = 21 -> [k : {"ticket"}, l : {0, 1, 40}]
    [] p = 22 -> [k : {"kx"}, g : A!Groups, i : 1..N0]
    [] p = 23 -> [k : {"scheme"}, id : A!SchemeIds]
    [] p = 26 -> [k : {"hkdf"}, a : {"sha256", "sha384"}, n : {1, 31, 32, 33, 48, 64, 100}]
    [] OTHER -> {}
Holds(x) ==
  CASE x.k = "xof" -> LET m == D(<<x>>, x.n) IN \A j \in {0, 1, 135, 136, 168, 272, 336} : BHead(Xof(x.a, m, 500), j) = Xof(x.a, m, j)
    [] x.k = "hmackey" -> LET k == D(<<x>>, x.n)  m == D(<<x, "m">>, 50)  b == A!BlockLen(x.a) IN
         /\ (x.n > b => A!HMAC(x.a, k, m) = A!HMAC(x.a, Hash(x.a, k), m))
         /\ (x.n < b => A!HMAC(x.a, k, m) = A!HMAC(x.a, BCat(k, BZero(b - x.n)), m))
         /\ A!HMAC(x.a, k, m) # A!HMAC(x.a, k, BCat(m, "00"))
    [] x.k = "long" -> \* messages given by zero blocks are what they stand for
         LET key == D(<<x, "k">>, 32)  non == D(<<x, "n">>, NonceLen(x.a))
             s(j) == [pre |-> BRep(16 * j, 16 * j), z |-> IF j = 1 THEN x.z ELSE 2 * x.z, suf |-> D(<<x, j>>, x.w)]
             full(j) == BCatSeq(<<s(j).pre, BZero(16 * s(j).z), s(j).suf>>)
         IN  /\ A!AeadTagLong(x.a, key, non, s(1), s(2)) = A!AeadTag(x.a, key, non, full(1), full(2))
             /\ LET z == BZero(64 * x.z + 64) IN
                \A i \in 0..x.z : A!AeadStreamAt(x.a, key, non, i, 48) = BSub(A!AeadCrypt(x.a, key, non, z), 64 * i, 48)
    [] x.k = "aead" ->
         LET key == D(<<x, "k">>, IF x.a = "gcm" THEN 16 + 16 * x.f ELSE 32)
             non == D(<<x, "n">>, NonceLen(x.a))
             aad == D(<<x, "a">>, x.d)
             pt == D(<<x, "p">>, x.n)
             s == A!AeadSeal(x.a, key, non, aad, pt)
         IN  /\ BLen(s.ct) = x.n /\ BLen(s.tag) = 16
             /\ A!AeadOpens(x.a, key, non, aad, s.ct, s.tag) /\ A!AeadCrypt(x.a, key, non, s.ct) = pt
             /\ \A b \in BitsOf(s.tag) : ~A!AeadOpens(x.a, key, non, aad, s.ct, BFlip(s.tag, b))
             /\ \A b \in BitsOf(s.ct) : ~A!AeadOpens(x.a, key, non, aad, BFlip(s.ct, b), s.tag)
             /\ \A b \in BitsOf(aad) : ~A!AeadOpens(x.a, key, non, BFlip(aad, b), s.ct, s.tag)
             /\ \A b \in BitsOf(non) : ~A!AeadOpens(x.a, key, BFlip(non, b), aad, s.ct, s.tag)
             /\ ~A!AeadOpens(x.a, key, non, BCat(aad, "00"), s.ct, s.tag)
             /\ ~A!AeadOpens(x.a, key, non, aad, BCat(s.ct, "00"), s.tag)
             /\ (x.n > 0 => ~A!AeadOpens(x.a, key, non, BCat(aad, BHead(s.ct, 1)), BTail(s.ct, 1), s.tag))
    [] x.k = "x" ->
         LET a == D(<<x, "a">>, 32)  b == D(<<x, "b">>, 32)  u == D(<<x, "u">>, 32) IN
         /\ A!X25519(a, A!X25519Base(b)) = A!X25519(b, A!X25519Base(a))
         /\ A!X25519(A!Clamp(a), u) = A!X25519(a, u)
         /\ A!X25519(a, BSet(u, 31, (BAt(u, 31) + 128) % 256)) = A!X25519(a, u)
         /\ A!X25519(a, A!X25519(b, u)) = A!X25519(b, A!X25519(a, u))
         /\ A!X25519(a, BZero(32)) = BZero(32)
         /\ A!X25519(a, N2LE(NAdd(A!P25519, NInt(x.i)), 32)) = A!X25519(a, N2LE(NInt(x.i), 32))
    [] x.k = "dh" ->
         LET a == Scal(x.c, <<x, 1>>)  b == Scal(x.c, <<x, 2>>)  pb == A!EcDecode(x.c, A!EcPub(x.c, b)).pt  pa == A!EcDecode(x.c, A!EcPub(x.c, a)).pt IN
         /\ A!EcMul(x.c, a, pb) = A!EcMul(x.c, b, pa)
         /\ A!EcAdd(x.c, pa, pb) = A!EcBase(x.c, NAddMod(a, b, A!Curve(x.c).n))
         /\ A!OnCurve(x.c, A!EcAdd(x.c, pa, pb))
         /\ A!EcMul(x.c, A!Curve(x.c).n, pa) = A!Inf
    [] x.k = "point" ->
         LET q == A!EcPub(x.c, Scal(x.c, <<x>>))  l == A!Curve(x.c).len IN
         /\ A!EcDecode(x.c, q).ok /\ A!EcEncode(x.c, A!EcDecode(x.c, q).pt) = q
         /\ \A b \in BitsOf(q) : A!EcDecode(x.c, BFlip(q, b)).ok => A!EcEncode(x.c, A!EcDecode(x.c, BFlip(q, b)).pt) = BFlip(q, b)
         /\ ~A!EcDecode(x.c, BCatSeq(<<"04", N2OS(A!Curve(x.c).p, l), BTail(q, 1 + l)>>)).ok
         /\ ~A!EcDecode(x.c, BCat(q, "00")).ok /\ ~A!EcDecode(x.c, BHead(q, 2 * l)).ok
    [] x.k = "ecdsa" ->
         LET d == Scal(x.c, <<x>>)  h == Hash(x.h, D(<<x, "m">>, 30))  q == A!EcBase(x.c, d)  n == A!Curve(x.c).n
             s == A!EcdsaSign(x.c, x.h, d, h, D(<<x, "r">>, 16)) IN
         /\ A!EcdsaVerify(x.c, q, h, s.r, s.s) /\ A!EcdsaVerify(x.c, q, h, s.r, NSub(n, s.s))
         /\ ~A!EcdsaVerify(x.c, q, BFlip(h, 3), s.r, s.s)
         /\ ~A!EcdsaVerify(x.c, q, h, NSub(n, s.r), s.s)
         /\ ~A!EcdsaVerify(x.c, A!EcNeg(x.c, q), h, s.r, s.s)
         /\ A!SigAsn1(A!SigDer(s)) = [ok |-> TRUE, r |-> s.r, s |-> s.s]
         /\ s.r # A!EcdsaSign(x.c, x.h, d, h, D(<<x, "other">>, 16)).r
    [] x.k = "ed" ->
         LET seed == D(<<x>>, 32)  pk == A!EdPublic(seed)  m == D(<<x, "m">>, 10 * x.i)  s == A!EdSign(seed, pk, m) IN
         /\ A!EdVerify(pk, m, s) /\ ~A!EdVerify(pk, BCat(m, "00"), s)
         /\ ~A!EdVerify(pk, m, BCat(BHead(s, 32), N2LE(NAdd(LE2N(BTail(s, 32)), A!EdL), 32)))
         /\ A!EdEncode(A!EdDecode(pk).pt) = pk
         /\ \A b \in {0, 7, 255, 256, 300, 508, 511} : ~A!EdVerify(pk, m, BFlip(s, b))
    [] x.k = "rsa" ->
         LET k == Keys[x.nm]  m == D(<<x>>, 20)  salt == D(<<x, "s">>, HLen(x.h))
             em == IF x.pad = "pss" THEN EmsaPss(x.h, m, k.n, salt) ELSE EmsaPkcs1(x.h, m, ModLen(k.n))
             s == N2OS(RsaRoot(k, OS2N(em)), ModLen(k.n)) IN
         /\ RsaVerify(k.n, k.e, x.pad, x.h, m, s)
         /\ RsaSigIs(k.n, k.e, x.pad, x.h, m, IF x.pad = "pss" THEN salt ELSE "", s)
         /\ ~RsaVerify(k.n, k.e, x.pad, x.h, BCat(m, "00"), s)
         /\ ~RsaVerify(k.n, k.e, IF x.pad = "pss" THEN "pkcs1" ELSE "pss", x.h, m, s)
         /\ ~RsaVerify(k.n, k.e, x.pad, x.h, m, BCat("00", s))
         /\ (x.pad = "pss" => PssOk(x.h, m, k.n, em) /\ ~PssOk(x.h, BCat(m, "00"), k.n, em))
    [] x.k = "rsakey" -> LET k == Keys[x.nm] IN
         /\ Consistent(k)
         /\ \A f \in {"d", "dp", "dq", "iqmp"} : ~Consistent([k EXCEPT ![f] = NAdd(@, "1")])
         /\ (A!GenKeyOk(k, NBits(k.n)) => NBits(k.p) * 2 = NBits(k.n))
    [] x.k = "kem" ->
         LET kp == A!MlKeyGen(D(<<x>>, 64))  m == D(<<x, "m">>, 32)  e == A!MlEncaps(kp.ek, m) IN
         /\ A!MlEkOk(kp.ek) /\ BLen(kp.ek) = 1184 /\ BLen(kp.dk) = 2400 /\ BLen(e.ct) = 1088 /\ BLen(e.ss) = 32
         /\ A!MlDecaps(kp.dk, e.ct) = e.ss
         /\ \A b \in {0, 4000, 7679, 7680, 8703} :
               /\ A!MlDecaps(kp.dk, BFlip(e.ct, b)) # e.ss
               /\ A!MlDecaps(kp.dk, BFlip(e.ct, b)) = Xof("shake256", BCat(BLast(kp.dk, 32), BFlip(e.ct, b)), 32)
    [] x.k = "ring" -> LET f == TLCEval(Sparse(<<x, "f">>))  g == TLCEval(Sparse(<<x, "g">>))
                            F == TLCEval(A!MlNtt(f))  G == TLCEval(A!MlNtt(g)) IN
         /\ A!MlInvNtt(F) = f
         /\ A!MlInvNtt(TLCEval(A!MlMul(F, G))) = MulMod256(f, g)
    [] x.k = "der" ->   \* every string of up to four bytes of the alphabet: what is read has one encoding
         \A w \in 0..(Pow11[1 + x.n] - 1) :
             LET b == Word(w, x.n)  t == A!DTake(b)  i == A!DItems(b)  s == A!DReadSeq(b) IN
             /\ (t.ok => BCat(A!DTlv(t.tag, t.body), t.rest) = b)
             /\ (i.ok => ReDer(i.v) = b)
             /\ (s.ok => A!DTlv(48, ReDer(s.v)) = b)
             /\ (t.ok => (A!DIsNat([tag |-> t.tag, body |-> t.body]) => A!DInt(OS2N(t.body)) = A!DTlv(t.tag, t.body)))
    [] x.k = "eckey" ->
         LET d == Scal(x.c, <<x>>)  q == A!EcPub(x.c, d) IN
         /\ A!EcPkcs8Key(x.c, A!EcPkcs8Der(x.c, d)) = [v |-> "yes", k |-> d]
         /\ \A ps \in {TRUE, FALSE} : A!Sec1Key(x.c, A!EcSec1Der(x.c, d, ps)) = [v |-> "yes", k |-> d]
         /\ A!EcPkcs8Key(IF x.c = "p256" THEN "p384" ELSE "p256", A!EcPkcs8Der(x.c, d)).v = "no"
         /\ A!EcPkcs8Key(x.c, BCat(A!EcPkcs8Der(x.c, d), "00")).v = "no"
    [] x.k = "edkey" -> LET s == D(<<x>>, 32) IN
         /\ A!EdPkcs8Key(A!EdPkcs8Der(s)) = [v |-> "yes", k |-> s]
         /\ A!EdSpkiKey(A!EdSpkiDer(A!EdPublic(s))) = A!EdPublic(s)
    [] x.k = "rsader" -> LET k == Keys[x.nm] IN
         /\ RsaPubRead(RsaPubDer(k.n, k.e)).v = "yes" /\ RsaPubRead(RsaPubDer(k.n, k.e)).n = k.n
         /\ RsaPrivRead(RsaPrivDer(k)).v # "no"
         /\ A!RsaPkcs8Read(RsaPkcs8Der(k)).v # "no"
         /\ RsaPrivRead(RsaPrivDer([k EXCEPT !.d = NAdd(@, "1")])).v # "yes"
    [] x.k = "record" ->
         LET s == Suite(x.n)  key == D(<<x, "k">>, s.klen)  iv == D(<<x, "iv">>, 12)  c == D(<<x, "c">>, x.l)
             q == N2OS("7", 8)
             r == A!RecSeal(s, key, iv, q, 23, 771, c)
             Opn(k, v, sq, t, ver, p) == A!RecOpen(s, k, IF s.ver = 771 /\ s.aead = "gcm" THEN BHead(v, 4) ELSE v, sq, t, ver, p)
         IN  /\ Opn(key, iv, q, 23, 771, r) = [r |-> "ok", typ |-> 23, pt |-> c]
             /\ \A b \in BitsOf(r) : Opn(key, iv, q, 23, 771, BFlip(r, b)).r # "ok"
             /\ \A sq \in {N2OS("6", 8), N2OS("8", 8), N2OS("8000000000000007", 8), N2OS("100000007", 8)} : Opn(key, iv, sq, 23, 771, r).r # "ok"
             /\ (s.ver = 771 => Opn(key, iv, q, 22, 771, r).r # "ok" /\ Opn(key, iv, q, 23, 770, r).r # "ok")
             /\ \A sq \in {"0", "1", "100", "ffffffffffffffff"} : A!SeqNonce(iv, N2OS(sq, 8)) # A!SeqNonce(iv, q)
    [] x.k = "ticket" ->
         LET k == [k |-> D(<<x>>, 32), name |-> D(<<x, "n">>, 16)]  m == D(<<x, "m">>, x.l)  t == A!TicketMake(k, D(<<x, "x">>, 24), m) IN
         /\ A!TicketRead(k, t) = [ok |-> TRUE, pt |-> m]
         /\ \A b \in BitsOf(t) : ~A!TicketRead(k, BFlip(t, b)).ok
         /\ \A j \in 0..(BLen(t) - 1) : ~A!TicketRead(k, BHead(t, j)).ok
         /\ ~A!TicketRead([k EXCEPT !.k = BFlip(@, 0)], t).ok
    [] x.k = "kx" ->
         IF x.g = "X25519MLKEM768"
         THEN LET ca == D(<<x, "x">>, 32)  sd == D(<<x, "d">>, 64)  sb == D(<<x, "y">>, 32)  m == D(<<x, "m">>, 32)
                  o == A!KxHybrid(ca, sd)  e == A!MlEncaps(A!MlKeyGen(sd).ek, m)
                  peer == BCat(e.ct, A!X25519Base(sb))
              IN  /\ A!Agree(o, peer, FALSE) = [ok |-> TRUE, ss |-> BCat(e.ss, A!X25519(sb, A!X25519Base(ca)))]
                  /\ A!Agree(o, BLast(peer, 32), TRUE) = [ok |-> TRUE, ss |-> A!X25519(sb, A!X25519Base(ca))]
                  /\ ~A!Agree(o, BCat(e.ct, BZero(32)), FALSE).ok /\ ~A!Agree(o, BCat(peer, "00"), FALSE).ok
         ELSE IF x.g = "X25519"
         THEN LET a == D(<<x, "x">>, 32)  b == D(<<x, "y">>, 32) IN
              /\ A!Agree(A!KxX(a), A!X25519Base(b), FALSE) = A!Agree(A!KxX(b), A!X25519Base(a), FALSE)
              /\ A!Agree(A!KxX(a), A!X25519Base(b), FALSE).ok /\ ~A!Agree(A!KxX(a), BZero(32), FALSE).ok
         ELSE LET c == A!GroupCurve(x.g)  a == Scal(c, <<x, 1>>)  b == Scal(c, <<x, 2>>)
                  K(d) == [t |-> "kx", g |-> x.g, k |-> d, dk |-> ""] IN
              /\ A!Agree(K(a), A!EcPub(c, b), FALSE) = A!Agree(K(b), A!EcPub(c, a), FALSE)
              /\ A!Agree(K(a), A!EcPub(c, b), FALSE).ok
    [] x.k = "scheme" -> /\ A!FirstAlg(x.id) \in A!SchemeAlgs(x.id)
                         /\ \A al \in A!SchemeAlgs(x.id) : \E v \in A!VerAlgs : <<v.pk, v.sg>> = al
                         /\ \A y \in A!SchemeIds : y # x.id => A!FirstAlg(y) # A!FirstAlg(x.id)
    [] x.k = "hkdf" -> LET p == D(<<x>>, 48) IN
         /\ BLen(A!HkdfExpand(x.a, p, "0102", x.n)) = x.n
         /\ BHead(A!HkdfExpand(x.a, p, "0102", 200), x.n) = A!HkdfExpand(x.a, p, "0102", x.n)
         /\ A!ExpandLabel(x.a, p, "key", "", x.n) # A!ExpandLabel(x.a, p, "iv", "", x.n) \/ x.n = 1
         /\ A!Derive(x.a, p, "c hs traffic", D(x, 9)) # A!Derive(x.a, p, "s hs traffic", D(x, 9))
Init == case \in CasesOf(LawsOf) /\ emitted = FALSE /\ objs = << >>
Next == ~emitted /\ emitted' = TRUE /\ UNCHANGED <<case, objs>>
Lawful == emitted => Holds(case)
=============================================================================
