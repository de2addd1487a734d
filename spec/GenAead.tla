------------------------------- MODULE GenAead -------------------------------
(* C04: sealing and opening over every length class, alignment and buffer      *)
(* placement; adversarially chosen Poly1305 accumulators.                      *)
EXTENDS Gen, Gcm, ChaPoly

Algs == {"gcm16", "gcm32", "chacha", "xchacha"}
A(a) == IF a \in {"gcm16", "gcm32"} THEN "gcm" ELSE a
KL(a) == IF a = "gcm16" THEN 16 ELSE 32
NL(a) == IF a = "xchacha" THEN 24 ELSE 12
New(a, k) == [op |-> "aead.new", alg |-> A(a), h |-> "k", k |-> k]
Seal(n, aad, pt, al) == [op |-> "aead.seal", h |-> "k", nonce |-> n, aad |-> aad, pt |-> pt, al |-> al]
Open(n, aad, ct, tag, al) == [op |-> "aead.open", h |-> "k", nonce |-> n, aad |-> aad, ct |-> ct, tag |-> tag, al |-> al]
SealOf(a, k, n, aad, pt) ==
    CASE A(a) = "gcm" -> GcmSeal(k, n, aad, pt)
      [] a = "chacha" -> ChaSeal(k, n, aad, pt)
      [] a = "xchacha" -> XChaSeal(k, n, aad, pt)
Both(id, a, k, n, aad, pt, al) ==
    LET s == SealOf(a, k, n, aad, pt)
    IN  Scenario(id, <<New(a, k), Seal(n, aad, pt, al), Open(n, aad, s.ct, s.tag, al)>>)

\* text lengths: all up to a few batches; aad: all up to a few batches
TextLens == [k : {"text"}, a : Algs, n : 0..(IF Thorough THEN 1600 ELSE 660)]
AadLens == [k : {"aad"}, a : Algs, n : 0..(IF Thorough THEN 800 ELSE 400)]
\* combinations around the batch sizes of the vector implementations
EdgesN == <<0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 112, 127, 128, 129, 144, 160, 191, 192, 193, 239, 240, 255, 256, 257,
            272, 383, 384, 385, 496, 511, 512, 513, 528, 575, 576, 577, 640, 767, 768, 769, 1023, 1024, 1025, 1040, 1151, 1152, 1281>>
Edges == {EdgesN[i] : i \in 1..Len(EdgesN)}
Combos == [k : {"combo"}, a : Algs, n : Edges, m : (IF Thorough THEN Edges ELSE {0, 1, 13, 16, 17, 64, 128, 129, 255, 256, 257, 300})]
LongAads == [k : {"longaad"}, a : Algs, n : {1023, 1024, 1040, 2048, 3000, 4095, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65541, 131072, 262150}]
\* every alignment
Aligns == [k : {"align"}, a : Algs, al : 0..63, n : {33, 128, 300, 512 + 47}]
\* counter carries: more than 2^8 and 2^16 blocks
Bigs == [k : {"big"}, a : Algs, n : {4096 - 16, 4096 + 16, 4096 + 300, 16384 - 64, 16384 + 200, 65536, 100000} \cup (IF Thorough THEN {1048576 + 555, 4194304 + 1000} ELSE {1048576 + 555})]
\* more than 2^32 bits (and, thoroughly, bytes) of associated data or of text
Huges == [k : {"hugeaad", "hugect", "huge"}, a : Algs, z : {33554432 + 5}]
    \cup (IF Thorough THEN [k : {"hugeaad"}, a : Algs, z : {268435456 + 3}] \cup [k : {"hugect"}, a : {"gcm16", "chacha"}, z : {268435456 + 7}] ELSE {})
TagLong(a, k, n, ad, c) ==
    CASE A(a) = "gcm" -> GcmTagLong(k, n, ad, c)
      [] a = "chacha" -> ChaTagLong(k, n, ad, c)
      [] a = "xchacha" -> ChaTagLong(XSubKey(k, n), XSubNonce(n), ad, c)
At(z) == <<1, 2, 63, 64, 1000, 16383, 65535, 65536, 262143, 262144, 1048575, 4194303, 4194304, (z \div 4) - 1>>
Reuse == [k : {"reuse"}, a : Algs, w : 1..(IF Thorough THEN 200 ELSE 30)]
\* Poly1305: choose the last ciphertext block so that the final accumulator is
\* congruent to t, for t at both ends of the field
\* ... or has a zero (or nearly) limb where a carry out of the limb below was left
PolyT == [k : {"poly"}, t : 0..(IF Thorough THEN 199 ELSE 79), w : 1..(IF Thorough THEN 40 ELSE 12)]
PTarget(t) ==
    IF t < 20 THEN NInt(t)
    ELSE IF t < 40 THEN NSub(P1305, NInt(t - 19))
    ELSE LET b == N2LE(NMod(LE2N(D(<<"polytarget", t>>, 17)), P1305), 17)
             \* bits 26..51 become t % 4
         IN  LE2N(BCatSeq(<<BHead(b, 3), BRep((BAt(b, 3) % 4) + (4 * (t % 4)), 1), "0000", BRep(16 * (BAt(b, 6) \div 16), 1), BTail(b, 7)>>))
PolyKey(x) == D(<<"polykey", x.w>>, 32)
PolyNonce(x) == D(<<"polynonce", x.w>>, 12)
PolyBlock(x) ==
    LET ks == ChaChaStream(PolyKey(x), 0, PolyNonce(x), 32)
        r == RClamp(ks)
        ri == NInvMod(r, P1305)
        first == D(<<"polyfirst", x>>, 16)
        a1 == PolyLoop("0", r, first)
        len == LE2N(BCatSeq(<<N2LE("0", 8), N2LE("20", 8), "01">>))
        need == NSubMod(NMulMod(NSubMod(NMulMod(PTarget(x.t), ri, P1305), len, P1305), ri, P1305), a1, P1305)
    IN  [first |-> first, need |-> need, ok |-> NBits(need) = 129]
KeyLens == [k : {"keylen"}, n : 0..40]
Cases == TextLens \cup AadLens \cup Combos \cup LongAads \cup Aligns \cup Bigs \cup Reuse \cup {x \in PolyT : PolyBlock(x).ok}
         \cup KeyLens \cup Huges

Sc(x) ==
  LET id == ToString(<<x>>) IN
  CASE x.k = "text" ->
        Both(id, x.a, D(<<x.a, x.n % 7>>, KL(x.a)), D(<<x, "n">>, NL(x.a)), D(<<x, "a">>, x.n % 23), D(<<x, "p">>, x.n), 100 + (x.n % 2))
    [] x.k = "aad" ->
        Both(id, x.a, D(<<x.a, x.n % 7>>, KL(x.a)), D(<<x, "n">>, NL(x.a)), D(<<x, "a">>, x.n), D(<<x, "p">>, x.n % 37), 100 + (x.n % 2))
    [] x.k = "longaad" ->
        Both(id, x.a, D(<<x.a, x.n>>, KL(x.a)), D(<<x, "n">>, NL(x.a)), D(<<x, "a">>, x.n), D(<<x, "p">>, x.n % 29), 100)
    [] x.k = "combo" ->
        Both(id, x.a, D(<<x.a, x.n>>, KL(x.a)), D(<<x, "n">>, NL(x.a)), D(<<x, "a">>, x.m), D(<<x, "p">>, x.n), (x.n + x.m) % 64)
    [] x.k = "align" ->
        Both(id, x.a, D(<<x.a, x.n>>, KL(x.a)), D(<<x, "n">>, NL(x.a)), D(<<x, "a">>, x.al), D(<<x, "p">>, x.n), x.al)
    [] x.k = "big" ->
        Both(id, x.a, D(<<x.a, x.n>>, KL(x.a)), D(<<x, "n">>, NL(x.a)), D(<<x, "a">>, 5), D(<<x, "p">>, x.n), 100)
    [] x.k = "hugeaad" ->
        LET key == D(<<x>>, KL(x.a))  n == D(<<x, "n">>, NL(x.a))  suf == D(<<x, "s">>, 16 + (x.z % 16))
        IN  Scenario(id, <<New(x.a, key), [op |-> "aead.longseal", h |-> "k", nonce |-> n, apre |-> D(<<x, "p">>, 32), az |-> x.z, asuf |-> suf, pt |-> D(<<x, "t">>, 300)]>>)
    [] x.k = "hugect" ->
        LET key == D(<<x>>, KL(x.a))  n == D(<<x, "n">>, NL(x.a))  suf == D(<<x, "s">>, 16 + (x.z % 16))  pre == D(<<x, "p">>, 48)
            aad == D(<<x, "a">>, 20)
            tag == TagLong(x.a, key, n, [pre |-> "", z |-> 0, suf |-> aad], [pre |-> pre, z |-> x.z, suf |-> suf])
            op(g) == [op |-> "aead.longopen", h |-> "k", nonce |-> n, apre |-> "", az |-> 0, asuf |-> aad, cpre |-> pre, cz |-> x.z, csuf |-> suf, at |-> At(x.z), tag |-> g]
        IN  Scenario(id, <<New(x.a, key), op(tag)>> \o (IF x.a \in {"gcm16", "chacha"} THEN <<op(BFlip(tag, 77))>> ELSE << >>))
    [] x.k = "huge" ->
        Scenario(id, <<New(x.a, D(<<x>>, KL(x.a))), [op |-> "aead.longround", h |-> "k", nonce |-> D(<<x, "n">>, NL(x.a)), aad |-> D(<<x, "a">>, 20), z |-> x.z, at |-> At(x.z)]>>)
    [] x.k = "reuse" ->
        LET key == D(<<x>>, KL(x.a))
        IN  Scenario(id, <<New(x.a, key)>> \o FlattenSeq([i \in 1..6 |->
              LET n == D(<<x, i, "n">>, NL(x.a))  aad == D(<<x, i, "a">>, RndN(<<x, i, "al">>, 100))
                  pt == D(<<x, i, "p">>, RndN(<<x, i, "pl">>, IF i % 2 = 0 THEN 2000 ELSE 100))
                  s == SealOf(x.a, key, n, aad, pt)
              IN  <<Seal(n, aad, pt, RndN(<<x, i>>, 64)), Open(n, aad, s.ct, s.tag, RndN(<<x, i>>, 64)),
                    Open(n, aad, s.ct, BFlip(s.tag, RndN(<<x, i, "f">>, 128)), 0)>>]))
    [] x.k = "poly" ->
        LET b == PolyBlock(x)
            ct == BCat(b.first, BHead(N2LE(b.need, 17), 16))
            pt == ChaCrypt(PolyKey(x), PolyNonce(x), ct)
        IN  Scenario(id, <<New("chacha", PolyKey(x)), Seal(PolyNonce(x), "", pt, 0),
              Open(PolyNonce(x), "", ct, ChaTag(PolyKey(x), PolyNonce(x), "", ct), 0)>>)
    [] x.k = "keylen" ->
        Scenario(id, <<[op |-> "aead.new", alg |-> "gcm", h |-> "k", k |-> D("kl", x.n)]>>)

Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
