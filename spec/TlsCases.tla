------------------------------- MODULE TlsCases -------------------------------
(* Steps of the provider scenarios; Obs is TRUE here: nothing is observed yet.  *)
EXTENDS Gen
VARIABLE objs
GObs(e, f, v) == TRUE
A == INSTANCE ApiTls WITH Obs <- GObs
SuiteNames == DOMAIN A!Suites
S(n) == A!Suites[n]
Is12(n) == S(n).ver = 771
Key(n) == D(<<"key", n>>, S(n).klen)
IvEx(n) == D(<<"iv", n>>, 12)
IvLen(n) == IF Is12(n) /\ S(n).aead = "gcm" THEN 4 ELSE 12
Cipher(n, h, dir, key, iv) ==
    [op |-> "tls.cipher", suite |-> n, h |-> h, dir |-> dir, key |-> key, iv |-> BHead(iv, IvLen(n)),
     ex |-> IF dir = "enc" THEN BTail(iv, IvLen(n)) ELSE ""]
Enc(n, h) == Cipher(n, h, "enc", Key(n), IvEx(n))
Dec(n, h) == Cipher(n, h, "dec", Key(n), IvEx(n))
Seal(h, seq, typ, parts, from, len, to) ==
    [op |-> "tls.seal", h |-> h, seq |-> N2OS(seq, 8), typ |-> typ, ver |-> 771, parts |-> parts, from |-> from, len |-> len, to |-> to]
Open(h, seq, typ) == [op |-> "tls.open", h |-> h, seq |-> N2OS(seq, 8), typ |-> typ, ver |-> 771, payload |-> ""]
OpenOf(h, seq, typ, from) == Open(h, seq, typ) @@ [from |-> from]
OpenRaw(h, seq, typ, payload) == [Open(h, seq, typ) EXCEPT !.payload = payload]
\* what the outer header of a record of content type typ says
OTyp(n, typ) == IF Is12(n) THEN typ ELSE 23
=============================================================================
