package gv;

import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/**
 * Java evaluators for the primitive operators declared in spec/Prim.tla.
 *
 * Byte strings are lower-case hex TLA+ strings; naturals are minimal
 * lower-case hex TLA+ strings ("0", "1f", ...). TLC's own integers (32 bit)
 * are used for lengths and indices only.
 */
public class Prims implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] { Prims.class };
    }

    // ---------------------------------------------------------------- conversions
    static final char[] HEX = "0123456789abcdef".toCharArray();

    static String str(Value v) { return ((StringValue) v).val.toString(); }

    static byte[] by(Value v) { return unhex(str(v)); }

    static byte[] unhex(String s) {
        int n = s.length();
        if ((n & 1) != 0) throw new RuntimeException("odd hex: " + s);
        byte[] r = new byte[n / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte) ((Character.digit(s.charAt(2 * i), 16) << 4) | Character.digit(s.charAt(2 * i + 1), 16));
        return r;
    }

    static String hex(byte[] b) {
        char[] c = new char[b.length * 2];
        for (int i = 0; i < b.length; i++) {
            c[2 * i] = HEX[(b[i] >> 4) & 15];
            c[2 * i + 1] = HEX[b[i] & 15];
        }
        return new String(c);
    }

    static Value sv(byte[] b) { return new StringValue(hex(b)); }

    static BigInteger big(Value v) { return new BigInteger(str(v), 16); }

    static Value nv(BigInteger b) { return new StringValue(b.toString(16)); }

    static int in(Value v) { return ((IntValue) v).val; }

    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

    static byte[] cat(byte[]... bs) {
        int n = 0;
        for (byte[] b : bs) n += b.length;
        byte[] r = new byte[n];
        n = 0;
        for (byte[] b : bs) { System.arraycopy(b, 0, r, n, b.length); n += b.length; }
        return r;
    }

    static byte[] rev(byte[] b) {
        byte[] r = new byte[b.length];
        for (int i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i];
        return r;
    }

    static byte[] os(BigInteger v, int len) {
        byte[] b = v.toByteArray();
        byte[] r = new byte[len];
        for (int i = 0; i < b.length; i++) {
            int d = len - b.length + i;
            if (d >= 0) r[d] = b[i];
            else if (b[i] != 0) throw new RuntimeException("integer too large for " + len + " octets");
        }
        return r;
    }

    static BigInteger ui(byte[] b) { return new BigInteger(1, b); }

    // ---------------------------------------------------------------- byte strings
    @TLAPlusOperator(identifier = "BLen", module = "Prim", warn = false)
    public static Value bLen(Value b) { return IntValue.gen(str(b).length() / 2); }

    @TLAPlusOperator(identifier = "BCat", module = "Prim", warn = false)
    public static Value bCat(Value a, Value b) { return new StringValue(str(a) + str(b)); }

    @TLAPlusOperator(identifier = "BCatSeq", module = "Prim", warn = false)
    public static Value bCatSeq(Value s) {
        StringBuilder sb = new StringBuilder();
        for (Value v : seq(s)) sb.append(str(v));
        return new StringValue(sb.toString());
    }

    @TLAPlusOperator(identifier = "BSub", module = "Prim", warn = false)
    public static Value bSub(Value b, Value off, Value len) {
        String s = str(b);
        return new StringValue(s.substring(2 * in(off), 2 * (in(off) + in(len))));
    }

    @TLAPlusOperator(identifier = "BAt", module = "Prim", warn = false)
    public static Value bAt(Value b, Value i) {
        return IntValue.gen(Integer.parseInt(str(b).substring(2 * in(i), 2 * in(i) + 2), 16));
    }

    @TLAPlusOperator(identifier = "BSet", module = "Prim", warn = false)
    public static Value bSet(Value b, Value i, Value v) {
        byte[] x = by(b);
        x[in(i)] = (byte) in(v);
        return sv(x);
    }

    @TLAPlusOperator(identifier = "BFlip", module = "Prim", warn = false)
    public static Value bFlip(Value b, Value bit) {
        byte[] x = by(b);
        int i = in(bit);
        x[i / 8] ^= (byte) (1 << (i % 8));
        return sv(x);
    }

    @TLAPlusOperator(identifier = "BXor", module = "Prim", warn = false)
    public static Value bXor(Value a, Value b) {
        byte[] x = by(a), y = by(b);
        int n = Math.min(x.length, y.length);
        byte[] r = new byte[n];
        for (int i = 0; i < n; i++) r[i] = (byte) (x[i] ^ y[i]);
        return sv(r);
    }

    @TLAPlusOperator(identifier = "BAnd", module = "Prim", warn = false)
    public static Value bAnd(Value a, Value b) {
        byte[] x = by(a), y = by(b);
        int n = Math.min(x.length, y.length);
        byte[] r = new byte[n];
        for (int i = 0; i < n; i++) r[i] = (byte) (x[i] & y[i]);
        return sv(r);
    }

    @TLAPlusOperator(identifier = "BOr", module = "Prim", warn = false)
    public static Value bOr(Value a, Value b) {
        byte[] x = by(a), y = by(b);
        int n = Math.min(x.length, y.length);
        byte[] r = new byte[n];
        for (int i = 0; i < n; i++) r[i] = (byte) (x[i] | y[i]);
        return sv(r);
    }

    @TLAPlusOperator(identifier = "BRep", module = "Prim", warn = false)
    public static Value bRep(Value v, Value n) {
        byte[] r = new byte[in(n)];
        Arrays.fill(r, (byte) in(v));
        return sv(r);
    }

    @TLAPlusOperator(identifier = "BRev", module = "Prim", warn = false)
    public static Value bRev(Value b) { return sv(rev(by(b))); }

    @TLAPlusOperator(identifier = "BOf", module = "Prim", warn = false)
    public static Value bOf(Value s) {
        Value[] e = seq(s);
        byte[] r = new byte[e.length];
        for (int i = 0; i < r.length; i++) r[i] = (byte) in(e[i]);
        return sv(r);
    }

    @TLAPlusOperator(identifier = "BInts", module = "Prim", warn = false)
    public static Value bInts(Value b) {
        byte[] x = by(b);
        Value[] e = new Value[x.length];
        for (int i = 0; i < x.length; i++) e[i] = IntValue.gen(x[i] & 255);
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "BAscii", module = "Prim", warn = false)
    public static Value bAscii(Value s) { return sv(str(s).getBytes(StandardCharsets.US_ASCII)); }

    /** Deterministic data: SHAKE256(label), n bytes. */
    @TLAPlusOperator(identifier = "Rnd", module = "Prim", warn = false)
    public static Value rnd(Value label, Value n) {
        return sv(shake(136, label.toString().getBytes(StandardCharsets.UTF_8), in(n)));
    }

    /** Deterministic choice: an index in 0..n-1. */
    @TLAPlusOperator(identifier = "RndN", module = "Prim", warn = false)
    public static Value rndN(Value label, Value n) {
        byte[] b = shake(136, label.toString().getBytes(StandardCharsets.UTF_8), 8);
        return IntValue.gen(ui(b).mod(BigInteger.valueOf(in(n))).intValue());
    }

    // ---------------------------------------------------------------- naturals
    @TLAPlusOperator(identifier = "NInt", module = "Prim", warn = false)
    public static Value nInt(Value i) { return nv(BigInteger.valueOf(in(i))); }

    @TLAPlusOperator(identifier = "NToInt", module = "Prim", warn = false)
    public static Value nToInt(Value n) { return IntValue.gen(big(n).intValueExact()); }

    @TLAPlusOperator(identifier = "NAdd", module = "Prim", warn = false)
    public static Value nAdd(Value a, Value b) { return nv(big(a).add(big(b))); }

    @TLAPlusOperator(identifier = "NSub", module = "Prim", warn = false)
    public static Value nSub(Value a, Value b) {
        BigInteger r = big(a).subtract(big(b));
        if (r.signum() < 0) throw new RuntimeException("NSub underflow");
        return nv(r);
    }

    @TLAPlusOperator(identifier = "NMul", module = "Prim", warn = false)
    public static Value nMul(Value a, Value b) { return nv(big(a).multiply(big(b))); }

    @TLAPlusOperator(identifier = "NDiv", module = "Prim", warn = false)
    public static Value nDiv(Value a, Value b) { return nv(big(a).divide(big(b))); }

    @TLAPlusOperator(identifier = "NMod", module = "Prim", warn = false)
    public static Value nMod(Value a, Value b) { return nv(big(a).mod(big(b))); }

    @TLAPlusOperator(identifier = "NPowMod", module = "Prim", warn = false)
    public static Value nPowMod(Value a, Value e, Value m) { return nv(big(a).modPow(big(e), big(m))); }

    @TLAPlusOperator(identifier = "NPow2", module = "Prim", warn = false)
    public static Value nPow2(Value e) { return nv(BigInteger.ONE.shiftLeft(in(e))); }

    @TLAPlusOperator(identifier = "NInvMod", module = "Prim", warn = false)
    public static Value nInvMod(Value a, Value m) {
        BigInteger x = big(a), n = big(m);
        return x.gcd(n).equals(BigInteger.ONE) ? nv(x.modInverse(n)) : new StringValue("0");
    }

    @TLAPlusOperator(identifier = "NGcd", module = "Prim", warn = false)
    public static Value nGcd(Value a, Value b) { return nv(big(a).gcd(big(b))); }

    @TLAPlusOperator(identifier = "NLt", module = "Prim", warn = false)
    public static Value nLt(Value a, Value b) { return bool(big(a).compareTo(big(b)) < 0); }

    @TLAPlusOperator(identifier = "NBits", module = "Prim", warn = false)
    public static Value nBits(Value a) { return IntValue.gen(big(a).bitLength()); }

    @TLAPlusOperator(identifier = "NBit", module = "Prim", warn = false)
    public static Value nBit(Value a, Value i) { return IntValue.gen(big(a).testBit(in(i)) ? 1 : 0); }

    @TLAPlusOperator(identifier = "NShr", module = "Prim", warn = false)
    public static Value nShr(Value a, Value i) { return nv(big(a).shiftRight(in(i))); }

    @TLAPlusOperator(identifier = "NIsPrime", module = "Prim", warn = false)
    public static Value nIsPrime(Value a) { return bool(big(a).isProbablePrime(80)); }

    @TLAPlusOperator(identifier = "OS2N", module = "Prim", warn = false)
    public static Value os2n(Value b) { return nv(ui(by(b))); }

    @TLAPlusOperator(identifier = "N2OS", module = "Prim", warn = false)
    public static Value n2os(Value n, Value len) { return sv(os(big(n), in(len))); }

    @TLAPlusOperator(identifier = "LE2N", module = "Prim", warn = false)
    public static Value le2n(Value b) { return nv(ui(rev(by(b)))); }

    @TLAPlusOperator(identifier = "N2LE", module = "Prim", warn = false)
    public static Value n2le(Value n, Value len) { return sv(rev(os(big(n), in(len)))); }

    // ---------------------------------------------------------------- hash functions
    static final ThreadLocal<Map<String, MessageDigest>> MDS = ThreadLocal.withInitial(HashMap::new);

    static byte[] md(String alg, byte[] m) {
        try {
            MessageDigest d = MDS.get().get(alg);
            if (d == null) { d = MessageDigest.getInstance(alg); MDS.get().put(alg, d); }
            return d.digest(m);
        } catch (Exception e) { throw new RuntimeException(e); }
    }

    static byte[] hash(String alg, byte[] m) {
        switch (alg) {
            case "sha256": return md("SHA-256", m);
            case "sha384": return md("SHA-384", m);
            case "sha512": return md("SHA-512", m);
            case "sha3_256": return md("SHA3-256", m);
            case "sha3_512": return md("SHA3-512", m);
            default: throw new RuntimeException("hash " + alg);
        }
    }

    @TLAPlusOperator(identifier = "Hash", module = "Prim", warn = false)
    public static Value hashOp(Value alg, Value m) { return sv(hash(str(alg), by(m))); }

    @TLAPlusOperator(identifier = "Xof", module = "Prim", warn = false)
    public static Value xofOp(Value alg, Value m, Value n) {
        return sv(shake(str(alg).equals("shake128") ? 168 : 136, by(m), in(n)));
    }

    static final long[] RC = new long[24];
    static final int[] ROT = new int[25];
    static {
        int lfsr = 1;
        for (int r = 0; r < 24; r++) {
            long c = 0;
            for (int j = 0; j < 7; j++) {
                if ((lfsr & 1) != 0) c |= 1L << ((1 << j) - 1);
                lfsr <<= 1;
                if ((lfsr & 0x100) != 0) lfsr ^= 0x171;
            }
            RC[r] = c;
        }
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
    }

    static void keccakF(long[] a) {
        long[] c = new long[5], b = new long[25];
        for (int r = 0; r < 24; r++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int x = 0; x < 5; x++) {
                long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
                for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
            }
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y], ROT[x + 5 * y]);
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 25; y += 5) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
            a[0] ^= RC[r];
        }
    }

    static byte[] sponge(int rate, byte[] m, int suffix, int n) {
        long[] a = new long[25];
        int nb = m.length / rate;
        byte[] last = new byte[rate];
        System.arraycopy(m, nb * rate, last, 0, m.length - nb * rate);
        last[m.length - nb * rate] ^= (byte) suffix;
        last[rate - 1] ^= (byte) 0x80;
        for (int i = 0; i <= nb; i++) {
            byte[] src = i < nb ? m : last;
            int off = i < nb ? i * rate : 0;
            for (int j = 0; j < rate; j++) a[j / 8] ^= (src[off + j] & 0xffL) << (8 * (j % 8));
            keccakF(a);
        }
        byte[] out = new byte[n];
        for (int i = 0; i < n; i++) {
            if (i > 0 && i % rate == 0) keccakF(a);
            int j = i % rate;
            out[i] = (byte) (a[j / 8] >>> (8 * (j % 8)));
        }
        return out;
    }

    static byte[] shake(int rate, byte[] m, int n) { return sponge(rate, m, 0x1f, n); }

    // ---------------------------------------------------------------- symmetric ciphers
    static final ThreadLocal<Object[]> AES = ThreadLocal.withInitial(() -> new Object[2]);

    static javax.crypto.Cipher aes(byte[] key) {
        try {
            Object[] c = AES.get();
            if (c[0] == null || !Arrays.equals((byte[]) c[0], key)) {
                javax.crypto.Cipher ci = javax.crypto.Cipher.getInstance("AES/ECB/NoPadding");
                ci.init(javax.crypto.Cipher.ENCRYPT_MODE, new javax.crypto.spec.SecretKeySpec(key, "AES"));
                c[0] = key;
                c[1] = ci;
            }
            return (javax.crypto.Cipher) c[1];
        } catch (Exception e) { throw new RuntimeException(e); }
    }

    @TLAPlusOperator(identifier = "AesBlock", module = "Prim", warn = false)
    public static Value aesBlock(Value k, Value b) {
        try { return sv(aes(by(k)).doFinal(by(b))); } catch (Exception e) { throw new RuntimeException(e); }
    }

    static long be64(byte[] b, int o) {
        long r = 0;
        for (int i = 0; i < 8; i++) r = (r << 8) | (b[o + i] & 255);
        return r;
    }

    static int le32(byte[] b, int o) {
        return (b[o] & 255) | ((b[o + 1] & 255) << 8) | ((b[o + 2] & 255) << 16) | ((b[o + 3] & 255) << 24);
    }

    static void qr(int[] x, int a, int b, int c, int d) {
        x[a] += x[b]; x[d] = Integer.rotateLeft(x[d] ^ x[a], 16);
        x[c] += x[d]; x[b] = Integer.rotateLeft(x[b] ^ x[c], 12);
        x[a] += x[b]; x[d] = Integer.rotateLeft(x[d] ^ x[a], 8);
        x[c] += x[d]; x[b] = Integer.rotateLeft(x[b] ^ x[c], 7);
    }

    static void rounds(int[] x) {
        for (int i = 0; i < 10; i++) {
            qr(x, 0, 4, 8, 12); qr(x, 1, 5, 9, 13); qr(x, 2, 6, 10, 14); qr(x, 3, 7, 11, 15);
            qr(x, 0, 5, 10, 15); qr(x, 1, 6, 11, 12); qr(x, 2, 7, 8, 13); qr(x, 3, 4, 9, 14);
        }
    }

    static int[] chachaState(byte[] key, byte[] tail) {
        int[] s = new int[16];
        byte[] sig = "expand 32-byte k".getBytes(StandardCharsets.US_ASCII);
        for (int i = 0; i < 4; i++) { s[i] = le32(sig, 4 * i); s[12 + i] = le32(tail, 4 * i); }
        for (int i = 0; i < 8; i++) s[4 + i] = le32(key, 4 * i);
        return s;
    }

    /** n bytes of the ChaCha20 key stream with a 32-bit block counter starting at ctr. */
    @TLAPlusOperator(identifier = "ChaChaStream", module = "Prim", warn = false)
    public static Value chachaStream(Value k, Value ctr, Value nonce, Value len) {
        int n = in(len);
        int[] s = chachaState(by(k), cat(new byte[4], by(nonce)));
        s[12] = in(ctr);
        byte[] out = new byte[n];
        for (int o = 0; o < n; o += 64, s[12]++) {
            int[] x = s.clone();
            rounds(x);
            for (int i = 0; i < 64 && o + i < n; i++) out[o + i] = (byte) ((x[i / 4] + s[i / 4]) >>> (8 * (i % 4)));
        }
        return sv(out);
    }

    @TLAPlusOperator(identifier = "HChaCha", module = "Prim", warn = false)
    public static Value hchacha(Value k, Value nonce16) {
        int[] x = chachaState(by(k), by(nonce16));
        rounds(x);
        byte[] out = new byte[32];
        for (int i = 0; i < 32; i++) {
            int w = i < 16 ? x[i / 4] : x[12 + (i - 16) / 4];
            out[i] = (byte) (w >>> (8 * (i % 4)));
        }
        return sv(out);
    }

    // ---------------------------------------------------------------- trace input
    /** Minimal JSON reader: the NDJSON file as a tuple of TLC values. */
    static final class Json {
        final String s; int i;
        Json(String s) { this.s = s; }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value val() {
            ws();
            char c = s.charAt(i);
            if (c == '{') {
                i++;
                ArrayList<util.UniqueString> ks = new ArrayList<>();
                ArrayList<Value> vs = new ArrayList<>();
                ws();
                if (s.charAt(i) == '}') { i++; }
                else for (;;) {
                    ws();
                    ks.add(util.UniqueString.uniqueStringOf(string()));
                    ws(); i++;
                    vs.add(val());
                    ws();
                    if (s.charAt(i++) == '}') break;
                }
                RecordValue r = new RecordValue(ks.toArray(new util.UniqueString[0]), vs.toArray(new Value[0]), false);
                r.normalize();
                return r;
            }
            if (c == '[') {
                i++;
                ArrayList<Value> vs = new ArrayList<>();
                ws();
                if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
                for (;;) {
                    vs.add(val());
                    ws();
                    if (s.charAt(i++) == ']') break;
                }
                return new TupleValue(vs.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(string());
            if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
            if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
            if (s.startsWith("null", i)) { i += 4; return new StringValue("null"); }
            int j = i;
            while (i < s.length() && "-0123456789".indexOf(s.charAt(i)) >= 0) i++;
            return IntValue.gen(Integer.parseInt(s.substring(j, i)));
        }
        String string() {
            int j = s.indexOf('"', i + 1);
            String r = s.substring(i + 1, j);
            if (r.indexOf('\\') >= 0) throw new RuntimeException("escape in JSON string");
            i = j + 1;
            return r;
        }
    }

    static final Map<String, Value> LOADED = new HashMap<>();

    @TLAPlusOperator(identifier = "Load", module = "Prim", warn = false)
    public static synchronized Value load(Value path) throws IOException {
        String p = str(path);
        Value v = LOADED.get(p);
        if (v == null) {
            ArrayList<Value> rows = new ArrayList<>();
            try (BufferedReader r = new BufferedReader(new InputStreamReader(new FileInputStream(p), StandardCharsets.UTF_8))) {
                String l;
                while ((l = r.readLine()) != null) if (!l.isEmpty()) rows.add(new Json(l).val());
            }
            v = new TupleValue(rows.toArray(new Value[0]));
            v.deepNormalize();
            LOADED.put(p, v);
        }
        return v;
    }

    /** SHA-2 of a message given as <<chunk, count>> pairs. */
    @TLAPlusOperator(identifier = "HashRep", module = "Prim", warn = false)
    public static Value hashRep(Value alg, Value parts) {
        try {
            String a = str(alg);
            MessageDigest d = MessageDigest.getInstance(a.equals("sha256") ? "SHA-256" : a.equals("sha384") ? "SHA-384" : "SHA-512");
            for (Value p : seq(parts)) {
                Value[] e = seq(p);
                byte[] c = by(e[0]);
                for (int i = 0; i < in(e[1]); i++) d.update(c);
            }
            return sv(d.digest());
        } catch (Exception x) { throw new RuntimeException(x); }
    }

    // ---------------------------------------------------------------- scenario output
    static PrintWriter OUT;

    static void json(Value v, StringBuilder sb) {
        if (v instanceof StringValue) {
            sb.append('"').append(((StringValue) v).val.toString().replace('"', '\'')).append('"');
        } else if (v instanceof IntValue) {
            sb.append(((IntValue) v).val);
        } else if (v instanceof BoolValue) {
            sb.append(((BoolValue) v).val);
        } else if (v instanceof RecordValue || (v instanceof FcnRcdValue && v.toTuple() == null)) {
            RecordValue r = (RecordValue) v.toRcd();
            sb.append('{');
            for (int i = 0; i < r.names.length; i++) {
                if (i > 0) sb.append(',');
                sb.append('"').append(r.names[i].toString()).append("\":");
                json(r.values[i], sb);
            }
            sb.append('}');
        } else {
            Value[] e = seq(v);
            sb.append('[');
            for (int i = 0; i < e.length; i++) {
                if (i > 0) sb.append(',');
                json(e[i], sb);
            }
            sb.append(']');
        }
    }

    /** Appends one JSON line to the file named by -Dgv.out; always TRUE. */
    @TLAPlusOperator(identifier = "Emit", module = "Prim", warn = false)
    public static synchronized Value emit(Value v) throws IOException {
        if (OUT == null) {
            OUT = new PrintWriter(new BufferedWriter(new FileWriter(System.getProperty("gv.out"))));
            Runtime.getRuntime().addShutdownHook(new Thread(() -> OUT.close()));
        }
        StringBuilder sb = new StringBuilder();
        json(v, sb);
        OUT.println(sb);
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "Prop", module = "Prim", warn = false)
    public static Value prop(Value name) { return new StringValue(System.getProperty("gv." + str(name), "")); }

    @TLAPlusOperator(identifier = "PropInt", module = "Prim", warn = false)
    public static Value propInt(Value name) { return IntValue.gen(Integer.getInteger("gv." + str(name), 0)); }

    /** Do the byte strings share n consecutive bytes, not nearly all alike? */
    @TLAPlusOperator(identifier = "BShares", module = "Prim", warn = false)
    public static Value bShares(Value a, Value b, Value n) {
        byte[] x = by(a), y = by(b);
        int w = in(n);
        Set<String> seen = new HashSet<>();
        for (int i = 0; i + w <= y.length; i++) {
            Set<Byte> d = new HashSet<>();
            for (int j = 0; j < w; j++) d.add(y[i + j]);
            if (d.size() >= w / 2) seen.add(new String(y, i, w, StandardCharsets.ISO_8859_1));
        }
        for (int i = 0; i + w <= x.length; i++)
            if (seen.contains(new String(x, i, w, StandardCharsets.ISO_8859_1))) return bool(true);
        return bool(false);
    }

    // ---- SHA-2 chaining values, which the JDK does not give
    static final long[] K512 = new long[80];
    static final long[] IV512 = new long[8], IV384 = new long[8], IV256 = new long[8];
    static {
        int n = 0;
        for (int p = 2; n < 80; p++) {
            if (!BigInteger.valueOf(p).isProbablePrime(40)) continue;
            BigInteger c = BigInteger.valueOf(p).shiftLeft(192), lo = BigInteger.ZERO, hi = BigInteger.ONE.shiftLeft(72);
            while (hi.subtract(lo).compareTo(BigInteger.ONE) > 0) {
                BigInteger m = lo.add(hi).shiftRight(1);
                if (m.pow(3).compareTo(c) <= 0) lo = m; else hi = m;
            }
            K512[n] = lo.longValue();
            long r = BigInteger.valueOf(p).shiftLeft(128).sqrt().longValue();
            if (n < 8) { IV512[n] = r; IV256[n] = r >>> 32; }
            else if (n < 16) IV384[n - 8] = r;
            n++;
        }
    }

    static long rr(boolean wide, long x, int n) {
        return wide ? Long.rotateRight(x, n) : Integer.rotateRight((int) x, n) & 0xffffffffL;
    }

    static long sg(boolean w, long x, int a, int b, int c) { return rr(w, x, a) ^ rr(w, x, b) ^ rr(w, x, c); }

    static long[] compress(String alg, byte[] m) {
        boolean w = !alg.equals("sha256");
        int ws = w ? 8 : 4, rounds = w ? 80 : 64;
        long mask = w ? -1L : 0xffffffffL;
        long[] h = (alg.equals("sha512") ? IV512 : alg.equals("sha384") ? IV384 : IV256).clone();
        for (int o = 0; o + 16 * ws <= m.length; o += 16 * ws) {
            long[] x = new long[rounds];
            for (int i = 0; i < 16; i++)
                for (int j = 0; j < ws; j++) x[i] = x[i] << 8 | m[o + i * ws + j] & 255;
            for (int i = 16; i < rounds; i++) {
                long a = x[i - 15], b = x[i - 2];
                long s0 = w ? rr(w, a, 1) ^ rr(w, a, 8) ^ a >>> 7 : rr(w, a, 7) ^ rr(w, a, 18) ^ a >>> 3;
                long s1 = w ? rr(w, b, 19) ^ rr(w, b, 61) ^ b >>> 6 : rr(w, b, 17) ^ rr(w, b, 19) ^ b >>> 10;
                x[i] = x[i - 16] + s0 + x[i - 7] + s1 & mask;
            }
            long[] v = h.clone();
            for (int i = 0; i < rounds; i++) {
                long k = w ? K512[i] : K512[i] >>> 32;
                long s1 = w ? sg(w, v[4], 14, 18, 41) : sg(w, v[4], 6, 11, 25);
                long t1 = v[7] + s1 + (v[4] & v[5] ^ ~v[4] & v[6]) + k + x[i];
                long s0 = w ? sg(w, v[0], 28, 34, 39) : sg(w, v[0], 2, 13, 22);
                long t2 = s0 + (v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2]);
                System.arraycopy(v, 0, v, 1, 7);
                v[4] = v[4] + t1 & mask;
                v[0] = t1 + t2 & mask;
            }
            for (int i = 0; i < 8; i++) h[i] = h[i] + v[i] & mask;
        }
        return h;
    }

    /** The chaining value after the whole blocks of m, as little-endian words. */
    @TLAPlusOperator(identifier = "HashMid", module = "Prim", warn = false)
    public static Value hashMid(Value alg, Value m) {
        boolean w = !str(alg).equals("sha256");
        long[] h = compress(str(alg), by(m));
        byte[] r = new byte[w ? 64 : 32];
        for (int i = 0; i < r.length; i++) r[i] = (byte) (h[i / (w ? 8 : 4)] >>> 8 * (i % (w ? 8 : 4)));
        return sv(r);
    }
}
