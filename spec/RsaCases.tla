------------------------------ MODULE RsaCases ------------------------------
(* Keys and messages that the RSA generators share.                             *)
EXTENDS Gen, Rsa, RsaKeys

F4 == "10001"
Key(nm, e) == RsaKey(RsaPrimes[nm][1], RsaPrimes[nm][2], e)
Keys == [nm \in DOMAIN RsaPrimes |-> Key(nm, F4)]
KeysE == [i \in 1..8 |-> Key("c2048", <<"3", "5", "7", "11", "101", F4, "80000001", "ffffffff">>[i])]
\* moduli the library supports
Sizes == {"b2048", "x2048", "x2047", "b2047", "b2049", "b2050", "b2054", "b2056", "b2064", "b2112", "b2176", "b2304", "b2041", "b2042", "b2046",
          "b2055", "b3072", "b4096", "b4104"}
Large == {"b6144", "b8192", "b8191"}
Refused == {"b2040", "b8193"}
Hashes == <<"sha256", "sha384", "sha512">>
HashN(i) == Hashes[1 + (i % 3)]
Pads == {"pkcs1", "pss"}
M0 == "68656c6c6f"
Em(n, pad, h, m, salt) == OS2N(IF pad = "pkcs1" THEN EmsaPkcs1(h, m, ModLen(n)) ELSE EmsaPss(h, m, n, salt))
SigOf(k, pad, h, m, salt) == N2OS(RsaRoot(k, Em(k.n, pad, h, m, salt)), ModLen(k.n))
LdPub(h, n, e) == [op |-> "rsa.loadpub", h |-> h, der |-> RsaPubDer(n, e)]
LdPriv(h, k) == [op |-> "rsa.load", h |-> h, fmt |-> "pkcs1", der |-> RsaPrivDer(k)]
V(h, pad, hash, m, sig) == [op |-> "rsa.verify", h |-> h, pad |-> pad, hash |-> hash, m |-> m, sig |-> sig, al |-> 100]
Sg(h, pad, hash, m, n) == [op |-> "rsa.sign", h |-> h, pad |-> pad, hash |-> hash, m |-> m, n |-> n]
Rng(b, then) == [op |-> "rng.set", bytes |-> b, then |-> then, fill |-> 0]
Ex(h, fmt, n) == [op |-> "rsa.export", h |-> h, fmt |-> fmt, n |-> n]
Salt(label, h) == D(<<"salt", label>>, HLen(h))
=============================================================================
