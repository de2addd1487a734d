--------------------------------- MODULE Leak ---------------------------------
(***************************************************************************)
(* C25: what an observer of the processor sees of a call (every            *)
(* instruction, every address, the operands of divisions) is a function of *)
(* the public part of what the library was given so far.                   *)
(*                                                                         *)
(* A step is public but for the fields that SecretOf names; of those, only *)
(* the lengths are.  Whether a call succeeded is public too, and so is an  *)
(* encapsulation key.                                                      *)
(***************************************************************************)
EXTENDS Prim, FiniteSets

SecretOf == [
    rngset |-> {"bytes"},
    hash |-> {"m", "v", "other"}, sha3 |-> {"m"}, xof |-> {"parts"},
    hmac |-> {"k", "m", "tag"},
    aead |-> {"k", "pt", "ct", "tag"},
    x25519 |-> {"k"}, ecdh |-> {"k"},
    ecdsa |-> {"der"}, ed25519 |-> {"der"}, rsa |-> {"der"},
    mlkem |-> {"seed", "m", "ct"},
    tls |-> {"key", "iv", "ex", "parts", "payload", "m", "t", "xorhead", "xortail"},
    drop |-> {} ]
Kinds == [
    drop |-> {"drop"}, rngset |-> {"rng.set"},
    hash |-> {"hash.new", "hash.update", "hash.finish", "hash.oneshot", "hash.equal", "hash.cmp", "hash.clone"},
    sha3 |-> {"sha3.new", "sha3.update", "sha3.finish"}, xof |-> {"xof.new", "xof.read"},
    hmac |-> {"hmac.new", "hmac.update", "hmac.finish", "hmac.verify", "hmac.tls", "hmac.clone"},
    aead |-> {"aead.new", "aead.seal", "aead.open"},
    x25519 |-> {"x25519.load", "x25519.loadpub", "x25519.dh", "x25519.generate", "x25519.sgenerate"},
    ecdh |-> {"ecdh.load", "ecdh.loadpub", "ecdh.dh", "ecdh.generate", "ecdh.sgenerate"},
    ecdsa |-> {"ecdsa.load", "ecdsa.sign", "ecdsa.export", "ecdsa.generate"},
    ed25519 |-> {"ed25519.load", "ed25519.sign", "ed25519.export", "ed25519.generate"},
    rsa |-> {"rsa.load", "rsa.sign", "rsa.pub"},
    mlkem |-> {"mlkem.keygen", "mlkem.loadek", "mlkem.encapsm", "mlkem.encaps", "mlkem.decaps"},
    tls |-> {"tls.cipher", "tls.seal", "tls.open", "tls.ticketer", "tls.tseal", "tls.topen"} ]
KindOf(op) == CHOOSE k \in DOMAIN Kinds : op \in Kinds[k]
\* messages that are signed are public, encrypted or authenticated ones are not
Secret(e) == IF e.op \in {"ecdsa.sign", "ed25519.sign", "rsa.sign"} THEN {} ELSE SecretOf[KindOf(e.op)]
Public(op) == {"op", "h", "to", "peer", "api", "alg", "alg2", "curve", "fmt", "form", "hash", "pad", "n", "al", "nonce", "aad", "u", "ek", "ek0", "trunc",
               "then", "fill", "failat", "label", "suite", "dir", "seq", "typ", "ver", "from", "len", "r", "eq"}
    \cup (IF op = "ecdh.loadpub" THEN {"pt"} ELSE {})
    \cup (IF op \in {"ecdsa.sign", "ed25519.sign", "rsa.sign"} THEN {"m"} ELSE {})
IsList(op, f) == f = "parts"
Size(e, f) == IF IsList(e.op, f) THEN [i \in DOMAIN e[f] |-> BLen(e[f][i])] ELSE BLen(e[f])
Low(e) == [f \in DOMAIN e \cap Public(e.op) |-> e[f]] @@ [f \in DOMAIN e \cap Secret(e) |-> Size(e, f)]
LowUpTo(a, b, i) == \A j \in 1..i : Low(a[j]) = Low(b[j])

(* two executions of one sequence of calls *)
Agree(a, b) == \A i \in DOMAIN a \cap DOMAIN b : LowUpTo(a, b, i) => a[i].leak = b[i].leak
Silent(e) == e.r = "ok" /\ \A p, q \in DOMAIN e.runs : p < q => Agree(e.runs[p], e.runs[q])
\* how many calls were compared
Compared(e) == Cardinality({<<p, i>> \in {<<p, i>> : p \in 2..Len(e.runs), i \in DOMAIN e.runs[1]} :
                    i \in DOMAIN e.runs[p] /\ LowUpTo(e.runs[1], e.runs[p], i) /\ e.runs[1][i].insns > 0})
=============================================================================
