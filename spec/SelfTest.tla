------------------------------- MODULE SelfTest -------------------------------
(***************************************************************************)
(* The specification against itself and against published values:          *)
(*  - Kat: known answers of the standards (an invariant);                   *)
(*  - the values of the operators that java/gv/Fast.java can evaluate, on   *)
(*    many inputs: emitted once with and once without those evaluators      *)
(*    (i.e. by the TLA+ definitions themselves), to be compared;            *)
(*  - Laws: algebraic laws that the definitions must satisfy.               *)
(***************************************************************************)
EXTENDS Gen, Gcm, ChaPoly, EcdsaCases, X25519, Ed25519, MlKem, Hmac, Rsa

Zs(n) == BZero(n)
Kat ==
   <<
     <<"sha256", Hash("sha256", "616263"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad">>,
     <<"sha384", Hash("sha384", "616263"), "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7">>,
     <<"sha512", Hash("sha512", "616263"), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f">>,
     <<"sha3_256", Hash("sha3_256", ""), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a">>,
     <<"shake128", Xof("shake128", "", 32), "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26">>,
     <<"shake256", Xof("shake256", "", 32), "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f">>,
     \* RFC 4231, cases 1 and 2
     \* RFC 5869, A.1
     <<"hkdf1", HkdfExtract("sha256", "000102030405060708090a0b0c", BRep(11, 22)), "077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5">>,
     <<"hkdf2", HkdfExpand("sha256", "077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5", "f0f1f2f3f4f5f6f7f8f9", 42),
        "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865">>,
     <<"hmac1", HMAC("sha256", BRep(11, 20), "4869205468657265"), "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7">>,
     <<"hmac2", HMAC("sha256", "4a656665", "7768617420646f2079612077616e7420666f72206e6f7468696e673f"), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843">>,
     \* FIPS 197 appendix C
     <<"aes128", AesBlock("000102030405060708090a0b0c0d0e0f", "00112233445566778899aabbccddeeff"), "69c4e0d86a7b0430d8cdb78070b4c55a">>,
     <<"aes256", AesBlock("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "00112233445566778899aabbccddeeff"), "8ea2b7ca516745bfeafc49904b496089">>,
     \* the GCM specification, test cases 1 and 2
     <<"gcm1", GcmTag(Zs(16), Zs(12), "", ""), "58e2fccefa7e3061367f1d57a4e7455a">>,
     <<"gcm2", GcmTag(Zs(16), Zs(12), "", "0388dace60b6a392f328c2b971b2fe78"), "ab6e47d42cec13bdf53a67b21257bddf">>,
     <<"gcm2c", GcmCrypt(Zs(16), Zs(12), Zs(16)), "0388dace60b6a392f328c2b971b2fe78">>,
     \* RFC 8439, 2.5.2 
     <<"poly", Poly1305Acc("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b",
                         "43727970746f6772617068696320466f72756d2052657365617263682047726f7570"), "a8061dc1305136c6c22b8baf0c0127a9">>,
     \* RFC 8439, 2.4.2 and draft-irtf-cfrg-xchacha, 2.2.1
     <<"chacha", ChaChaStream("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", 1, "000000090000004a00000000", 16), "10f1e7e4d13b5915500fdd1fa32071c4">>,
     <<"hchacha", HChaCha("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "000000090000004a0000000031415927"), "82413b4227b27bfed30e42508a877d73a0f9e4d58a74a853c12ec41326d3ecdc">>,
     \* RFC 7748, 5.2 and 6.1
     <<"x25519", X25519("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4", "e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c"),
                 "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552">>,
     <<"x25519b", X25519(BCat("09", BZero(31)), BCat("09", BZero(31))), "422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079">>,
     \* RFC 8032, 7.1, test 1
     <<"ed1", EdPublic("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60"), "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a">>,
     <<"ed2", EdSign("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a", ""),
        "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b">>,
     \* RFC 6979, A.2.5, SHA-256, "sample"
     <<"rfc6979", EcdsaNonce("p256", "sha256", "c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721", Hash("sha256", "73616d706c65"), ""),
        "a6e3c57dd01abe90086538398355dd4c3b17aa873382b0f24d6129493d8aad60">>,
     <<"ecdsa-r", EcdsaSign("p256", "sha256", "c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721", Hash("sha256", "73616d706c65"), "").r,
        "efd48b2aacb6a8fd1140dd9cd45e81d69d2c877b56aaf991c34d0ea84eaf3716">>,
     <<"ecdsa-s", EcdsaSign("p256", "sha256", "c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721", Hash("sha256", "73616d706c65"), "").s,
        "f7cb1c942d657c41d436c7a1b6e29f65f3e900dbb9aff4064dc4ab2f843acda8">>
   >>
KatOk == \A i \in 1..Len(Kat) : Kat[i][2] = Kat[i][3] \/ ~PrintT(<<"KNOWN ANSWER", Kat[i]>>)

Laws(c) == \* of a curve
   /\ NIsPrime(Curve(c).p) /\ NIsPrime(Curve(c).n) /\ OnCurve(c, Curve(c).g) /\ EcBase(c, Curve(c).n) = Inf
   /\ EcBase(c, NSub(Curve(c).n, "1")) = EcNeg(c, Curve(c).g)
EdLaws == NIsPrime(EdP) /\ NIsPrime(EdL) /\ EdMul(EdL, EdB) = EdO /\ EdEncode(EdB) = BCat("58", BRep(102, 31)) /\ EdMul("8", EdB) # EdO
LawsOk == (\A c \in {"p256", "p384"} : Laws(c)) /\ EdLaws

N0 == PropInt("n")
Cases ==
   [k : {"ctr", "ghash", "poly", "ladder", "edmul", "edadd", "ekok"}, i : 1..N0] \cup [k : {"ecmul", "ecadd"}, c : {"p256", "p384"}, i : 1..N0]
   \cup [k : {"kem"}, i : 1..PropInt("kem")]
Pt(c, l) == EcBase(c, RndScalar(c, l))
EPt(l) == EdMul(NMod(LE2N(D(l, 32)), EdL), EdB)
Val(x) ==
  CASE x.k = "ctr" -> AesCtr(D(<<x, "k">>, IF x.i % 2 = 0 THEN 16 ELSE 32), IF x.i < 4 THEN BRep(255, 16) ELSE D(<<x, "c">>, 16), x.i * 3)
    [] x.k = "ghash" -> GHash(IF x.i < 3 THEN BRep(<<0, 255>>[x.i], 16) ELSE D(<<x, "h">>, 16), D(<<x, "d">>, 16 * (x.i % 9)))
    [] x.k = "poly" -> Poly1305Acc(IF x.i < 3 THEN BRep(<<0, 255>>[x.i], 32) ELSE D(<<x, "k">>, 32), IF x.i % 3 = 0 THEN BRep(255, x.i) ELSE D(<<x, "d">>, x.i))
    [] x.k = "ladder" -> X25519Ladder(IF x.i < 6 THEN NInt(x.i) ELSE LE2N(Clamp(D(<<x, "k">>, 32))), DecodeU(IF x.i % 5 = 0 THEN BSet(BZero(32), 0, x.i) ELSE D(<<x, "u">>, 32)))
    [] x.k = "edmul" -> EdMul(IF x.i < 9 THEN NInt(x.i) ELSE LE2N(D(<<x, "k">>, 32)), EPt(<<x>>))
    [] x.k = "edadd" -> LET pt == EPt(<<x>>) IN <<EdAdd(pt, EPt(<<x, 1>>)), EdAdd(pt, pt), EdAdd(pt, EdNeg(pt)), EdAdd(pt, EdO)>>
    [] x.k = "ecmul" -> EcMul(x.c, IF x.i < 9 THEN NInt(x.i - 1) ELSE IF x.i < 12 THEN NSub(Curve(x.c).n, NInt(x.i - 9)) ELSE RndScalar(x.c, <<x>>), Pt(x.c, <<x, "p">>))
    [] x.k = "ecadd" -> LET pt == Pt(x.c, <<x>>) IN <<EcAdd(x.c, pt, Pt(x.c, <<x, 1>>)), EcAdd(x.c, pt, pt), EcAdd(x.c, pt, EcNeg(x.c, pt)), EcAdd(x.c, Inf, pt), EcAdd(x.c, pt, Inf)>>
    [] x.k = "ekok" -> LET b == BRep(0, 1184)  o == (x.i * 37) % 1152 IN <<MlEkOk(BSet(b, o, 255)), MlEkOk(BSet(BSet(b, o, 255), Min(o + 1, 1151), 255)), MlEkOk(BSub(b, 0, 1183))>>
    [] x.k = "kem" -> LET kp == PkeKeyGen(D(<<x, "d">>, 32))  ct == PkeEncrypt(kp.ek, D(<<x, "m">>, 32), D(<<x, "r">>, 32)) IN <<kp, ct, PkeDecrypt(kp.dk, ct), PkeDecrypt(kp.dk, D(<<x, "c">>, 1088))>>
Sc(x) == [id |-> ToString(x), v |-> Val(x)]
ASSUME KatOk
ASSUME LawsOk
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
