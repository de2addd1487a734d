-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Byte strings and natural numbers, and the primitive cryptographic        *)
(* functions that everything else is built from.                            *)
(*                                                                          *)
(*   byte string  a TLA+ string of lower-case hex digits, two per byte      *)
(*   natural      a TLA+ string of lower-case hex digits, no leading zero   *)
(*   index, size  an ordinary TLA+ integer                                  *)
(*                                                                          *)
(* The operators below are evaluated by java/gv/Prims.java; the bodies here *)
(* only fix their arity (and make SANY happy).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Undef(op) == Assert(FALSE, <<"Prim operator evaluated without its override", op>>)

\* ---- byte strings
BLen(b) == Undef("BLen")                    \* length in bytes
BCat(a, b) == Undef("BCat")
BCatSeq(s) == Undef("BCatSeq")
BSub(b, off, len) == Undef("BSub")          \* len bytes from offset off (0-based)
BAt(b, i) == Undef("BAt")                   \* byte i as an integer
BSet(b, i, v) == Undef("BSet")
BFlip(b, i) == Undef("BFlip")               \* flip bit i (bit 0 is the lsb of byte 0)
BXor(a, b) == Undef("BXor")                 \* truncates to the shorter
BAnd(a, b) == Undef("BAnd")
BOr(a, b) == Undef("BOr")
BRep(v, n) == Undef("BRep")                 \* n copies of byte v
BRev(b) == Undef("BRev")
BOf(s) == Undef("BOf")                      \* sequence of integers to bytes
BInts(b) == Undef("BInts")                  \* and back
BShares(a, b, n) == Undef("BShares")        \* n consecutive bytes (at least n/2 of them different) occur in both
BAscii(s) == Undef("BAscii")
Rnd(label, n) == Undef("Rnd")               \* n deterministic pseudo-random bytes
RndN(label, n) == Undef("RndN")             \* deterministic choice in 0..n-1

\* ---- naturals
NInt(i) == Undef("NInt")
NToInt(n) == Undef("NToInt")
NAdd(a, b) == Undef("NAdd")
NSub(a, b) == Undef("NSub")                 \* requires a >= b
NMul(a, b) == Undef("NMul")
NDiv(a, b) == Undef("NDiv")
NMod(a, b) == Undef("NMod")
NPowMod(a, e, m) == Undef("NPowMod")
NPow2(i) == Undef("NPow2")
NInvMod(a, m) == Undef("NInvMod")           \* "0" when there is no inverse
NGcd(a, b) == Undef("NGcd")
NLt(a, b) == Undef("NLt")
NBits(a) == Undef("NBits")
NBit(a, i) == Undef("NBit")
NShr(a, i) == Undef("NShr")
NIsPrime(a) == Undef("NIsPrime")
OS2N(b) == Undef("OS2N")                    \* big-endian bytes to natural
N2OS(n, len) == Undef("N2OS")
LE2N(b) == Undef("LE2N")                    \* little-endian bytes to natural
N2LE(n, len) == Undef("N2LE")

\* ---- primitive functions
Hash(alg, m) == Undef("Hash")               \* FIPS 180-4, FIPS 202
HashRep(alg, parts) == Undef("HashRep")     \* parts: <<chunk, count>> pairs
Xof(alg, m, n) == Undef("Xof")              \* SHAKE128/SHAKE256, first n bytes
HashMid(alg, m) == Undef("HashMid")         \* chaining value after the whole blocks of m (little-endian words)
AesBlock(k, b) == Undef("AesBlock")         \* FIPS 197
ChaChaStream(k, ctr, nonce, n) == Undef("ChaChaStream") \* RFC 8439 section 2.4
HChaCha(k, nonce16) == Undef("HChaCha")     \* draft-irtf-cfrg-xchacha

\* ---- plumbing between TLC and the harness
Emit(v) == Undef("Emit")                    \* append one JSON line to gv.out
Load(path) == Undef("Load")                 \* NDJSON file to a sequence
Prop(name) == Undef("Prop")                 \* -Dgv.name
PropInt(name) == Undef("PropInt")

\* ---- derived
BHead(b, n) == BSub(b, 0, n)
BTail(b, n) == BSub(b, n, BLen(b) - n)      \* everything from offset n
BLast(b, n) == BSub(b, BLen(b) - n, n)
BZero(n) == BRep(0, n)
BPad16(b) == BZero((16 - (BLen(b) % 16)) % 16)
NLe(a, b) == ~NLt(b, a)
NIsZero(a) == a = "0"
NAddMod(a, b, m) == NMod(NAdd(a, b), m)
NSubMod(a, b, m) == NMod(NSub(NAdd(a, m), NMod(b, m)), m)
NMulMod(a, b, m) == NMod(NMul(a, b), m)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Concat(s) == BCatSeq(s)
Range(f) == {f[x] : x \in DOMAIN f}
HexDigit == "0123456789abcdef"
=============================================================================
