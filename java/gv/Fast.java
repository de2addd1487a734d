package gv;

import java.math.BigInteger;
import java.util.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/**
 * Fast evaluators for operators that spec/*.tla DEFINES in TLA+.  The self
 * test (spec/SelfTest.tla) runs with and without this class and requires
 * identical results.
 */
public class Fast extends Prims {
    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] { Fast.class };
    }

    /** n bytes of E(K,ctr) || E(K,inc32(ctr)) || ... */
    @TLAPlusOperator(identifier = "AesCtr", module = "Gcm", warn = false)
    public static Value aesCtr(Value k, Value ctr, Value len) {
        try {
            int n = in(len);
            byte[] c = by(ctr);
            int blocks = (n + 15) / 16;
            byte[] in = new byte[blocks * 16];
            int lo = ((c[12] & 255) << 24) | ((c[13] & 255) << 16) | ((c[14] & 255) << 8) | (c[15] & 255);
            for (int i = 0; i < blocks; i++) {
                System.arraycopy(c, 0, in, 16 * i, 12);
                int v = lo + i;
                for (int j = 0; j < 4; j++) in[16 * i + 12 + j] = (byte) (v >>> (24 - 8 * j));
            }
            return sv(Arrays.copyOf(aes(by(k)).doFinal(in), n));
        } catch (Exception e) { throw new RuntimeException(e); }
    }

    /** GHASH_H over a whole number of blocks. */
    @TLAPlusOperator(identifier = "GHash", module = "Gcm", warn = false)
    public static Value gHash(Value h, Value data) {
        byte[] hb = by(h), d = by(data);
        long h0 = be64(hb, 0), h1 = be64(hb, 8), y0 = 0, y1 = 0;
        for (int i = 0; i < d.length; i += 16) {
            y0 ^= be64(d, i);
            y1 ^= be64(d, i + 8);
            long z0 = 0, z1 = 0, v0 = h0, v1 = h1;
            for (int b = 0; b < 128; b++) {
                long bit = b < 64 ? (y0 >>> (63 - b)) & 1 : (y1 >>> (127 - b)) & 1;
                z0 ^= v0 & -bit;
                z1 ^= v1 & -bit;
                long lsb = v1 & 1;
                v1 = (v1 >>> 1) | (v0 << 63);
                v0 = (v0 >>> 1) ^ (0xe100000000000000L & -lsb);
            }
            y0 = z0;
            y1 = z1;
        }
        byte[] r = new byte[16];
        for (int i = 0; i < 8; i++) {
            r[i] = (byte) (y0 >>> (56 - 8 * i));
            r[8 + i] = (byte) (y1 >>> (56 - 8 * i));
        }
        return sv(r);
    }

    static final BigInteger P1305 = BigInteger.ONE.shiftLeft(130).subtract(BigInteger.valueOf(5));
    static final BigInteger RMASK = new BigInteger("0ffffffc0ffffffc0ffffffc0fffffff", 16);

    @TLAPlusOperator(identifier = "Poly1305Acc", module = "ChaPoly", warn = false)
    public static Value poly1305(Value key, Value msg) {
        byte[] k = by(key), m = by(msg);
        BigInteger r = ui(rev(Arrays.copyOf(k, 16))).and(RMASK), s = ui(rev(Arrays.copyOfRange(k, 16, 32))), a = BigInteger.ZERO;
        for (int i = 0; i < m.length; i += 16) {
            int n = Math.min(16, m.length - i);
            BigInteger b = ui(rev(Arrays.copyOfRange(m, i, i + n))).setBit(8 * n);
            a = a.add(b).multiply(r).mod(P1305);
        }
        return sv(rev(os(a.add(s).mod(BigInteger.ONE.shiftLeft(128)), 16)));
    }

    // ---------------------------------------------------------------- curves
    static BigInteger H(String s) { return new BigInteger(s, 16); }

    /** Short-Weierstrass scalar multiplication, a = -3; points are <<x, y>> or <<>>. */
    @TLAPlusOperator(identifier = "EcMulP", module = "Ec", warn = false)
    public static Value ecMul(Value k, Value pt, Value p) { return ptv(jmul(big(k), pt(pt), big(p)), big(p)); }

    @TLAPlusOperator(identifier = "EcAddP", module = "Ec", warn = false)
    public static Value ecAdd(Value a, Value b, Value p) {
        BigInteger m = big(p);
        return ptv(jadd(pt(a), pt(b), m), m);
    }

    static final BigInteger THREE = BigInteger.valueOf(3);

    static BigInteger[] pt(Value v) {
        Value[] e = seq(v);
        return e.length == 0 ? null : new BigInteger[] { big(e[0]), big(e[1]), BigInteger.ONE };
    }

    static Value ptv(BigInteger[] j, BigInteger p) {
        if (j == null) return new TupleValue(new Value[0]);
        BigInteger zi = j[2].modInverse(p), z2 = zi.multiply(zi).mod(p);
        return new TupleValue(new Value[] { nv(j[0].multiply(z2).mod(p)), nv(j[1].multiply(z2).mod(p).multiply(zi).mod(p)) });
    }

    static BigInteger[] jdbl(BigInteger[] a, BigInteger p) {
        if (a == null || a[1].signum() == 0) return null;
        BigInteger y2 = a[1].multiply(a[1]).mod(p), s = a[0].multiply(y2).shiftLeft(2).mod(p), z2 = a[2].multiply(a[2]).mod(p);
        BigInteger m = a[0].subtract(z2).multiply(a[0].add(z2)).multiply(THREE).mod(p);
        BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(p);
        BigInteger y = m.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(p);
        return new BigInteger[] { x, y, a[1].multiply(a[2]).shiftLeft(1).mod(p) };
    }

    static BigInteger[] jadd(BigInteger[] a, BigInteger[] b, BigInteger p) {
        if (a == null) return b;
        if (b == null) return a;
        BigInteger z1 = a[2].multiply(a[2]).mod(p), z2 = b[2].multiply(b[2]).mod(p);
        BigInteger u1 = a[0].multiply(z2).mod(p), u2 = b[0].multiply(z1).mod(p);
        BigInteger s1 = a[1].multiply(z2).mod(p).multiply(b[2]).mod(p), s2 = b[1].multiply(z1).mod(p).multiply(a[2]).mod(p);
        BigInteger h = u2.subtract(u1).mod(p), r = s2.subtract(s1).mod(p);
        if (h.signum() == 0) return r.signum() == 0 ? jdbl(a, p) : null;
        BigInteger h2 = h.multiply(h).mod(p), h3 = h2.multiply(h).mod(p), v = u1.multiply(h2).mod(p);
        BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(p);
        BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(p);
        return new BigInteger[] { x, y, h.multiply(a[2]).mod(p).multiply(b[2]).mod(p) };
    }

    static BigInteger[] jmul(BigInteger k, BigInteger[] a, BigInteger p) {
        BigInteger[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = jdbl(r, p);
            if (k.testBit(i)) r = jadd(r, a, p);
        }
        return r;
    }

    static final BigInteger P25519 = BigInteger.ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));

    /** RFC 7748 section 5 Montgomery ladder: scalar k and u-coordinate as naturals. */
    @TLAPlusOperator(identifier = "X25519Ladder", module = "X25519", warn = false)
    public static Value ladder(Value kv, Value uv) {
        BigInteger k = big(kv), p = P25519, x1 = big(uv), x2 = BigInteger.ONE, z2 = BigInteger.ZERO, x3 = x1, z3 = BigInteger.ONE;
        BigInteger a24 = BigInteger.valueOf(121665);
        boolean swap = false;
        for (int t = 254; t >= 0; t--) {
            boolean b = k.testBit(t);
            if (swap != b) { BigInteger w = x2; x2 = x3; x3 = w; w = z2; z2 = z3; z3 = w; }
            swap = b;
            BigInteger A = x2.add(z2), AA = A.multiply(A).mod(p), B = x2.subtract(z2), BB = B.multiply(B).mod(p), E = AA.subtract(BB);
            BigInteger C = x3.add(z3), D = x3.subtract(z3), DA = D.multiply(A).mod(p), CB = C.multiply(B).mod(p);
            x3 = DA.add(CB).pow(2).mod(p);
            z3 = x1.multiply(DA.subtract(CB).pow(2)).mod(p);
            x2 = AA.multiply(BB).mod(p);
            z2 = E.multiply(AA.add(a24.multiply(E))).mod(p);
        }
        if (swap) { BigInteger w = x2; x2 = x3; x3 = w; w = z2; z2 = z3; z3 = w; }
        return nv(x2.multiply(z2.modPow(p.subtract(BigInteger.TWO), p)).mod(p));
    }

    static final BigInteger D25519 = BigInteger.valueOf(-121665).multiply(BigInteger.valueOf(121666).modInverse(P25519)).mod(P25519);

    static BigInteger[] edadd(BigInteger[] a, BigInteger[] b) { // extended coordinates, complete
        BigInteger p = P25519;
        BigInteger A = a[1].subtract(a[0]).multiply(b[1].subtract(b[0])).mod(p), B = a[1].add(a[0]).multiply(b[1].add(b[0])).mod(p);
        BigInteger C = a[3].multiply(BigInteger.TWO).multiply(D25519).mod(p).multiply(b[3]).mod(p), D = a[2].multiply(BigInteger.TWO).multiply(b[2]).mod(p);
        BigInteger E = B.subtract(A), F = D.subtract(C), G = D.add(C), Hh = B.add(A);
        return new BigInteger[] { E.multiply(F).mod(p), G.multiply(Hh).mod(p), F.multiply(G).mod(p), E.multiply(Hh).mod(p) };
    }

    static BigInteger[] edpt(Value v) {
        Value[] e = seq(v);
        BigInteger x = big(e[0]), y = big(e[1]);
        return new BigInteger[] { x, y, BigInteger.ONE, x.multiply(y).mod(P25519) };
    }

    static Value edv(BigInteger[] q) {
        BigInteger zi = q[2].modInverse(P25519);
        return new TupleValue(new Value[] { nv(q[0].multiply(zi).mod(P25519)), nv(q[1].multiply(zi).mod(P25519)) });
    }

    @TLAPlusOperator(identifier = "EdMul", module = "Ed25519", warn = false)
    public static Value edMul(Value k, Value pt) {
        BigInteger n = big(k);
        BigInteger[] a = edpt(pt), r = { BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
        for (int i = n.bitLength() - 1; i >= 0; i--) {
            r = edadd(r, r);
            if (n.testBit(i)) r = edadd(r, a);
        }
        return edv(r);
    }

    @TLAPlusOperator(identifier = "EdAdd", module = "Ed25519", warn = false)
    public static Value edAdd(Value a, Value b) { return edv(edadd(edpt(a), edpt(b))); }


    // ---------------------------------------------------------------- ML-KEM-768
    static final int Q = 3329;
    static final int[] ZETA = new int[128];
    static {
        for (int i = 0; i < 128; i++) {
            int r = Integer.reverse(i) >>> 25, z = 1;
            for (int j = 0; j < r; j++) z = z * 17 % Q;
            ZETA[i] = z;
        }
    }

    static int[] ntt(int[] f) {
        f = f.clone();
        int k = 1;
        for (int len = 128; len >= 2; len /= 2)
            for (int st = 0; st < 256; st += 2 * len) {
                int z = ZETA[k++];
                for (int j = st; j < st + len; j++) {
                    int t = z * f[j + len] % Q;
                    f[j + len] = (f[j] + Q - t) % Q;
                    f[j] = (f[j] + t) % Q;
                }
            }
        return f;
    }

    static int[] intt(int[] f) {
        f = f.clone();
        int k = 127;
        for (int len = 2; len <= 128; len *= 2)
            for (int st = 0; st < 256; st += 2 * len) {
                int z = ZETA[k--];
                for (int j = st; j < st + len; j++) {
                    int t = f[j];
                    f[j] = (t + f[j + len]) % Q;
                    f[j + len] = z * ((f[j + len] + Q - t) % Q) % Q;
                }
            }
        for (int i = 0; i < 256; i++) f[i] = f[i] * 3303 % Q;
        return f;
    }

    static int[] padd(int[] a, int[] b) {
        int[] r = new int[256];
        for (int i = 0; i < 256; i++) r[i] = (a[i] + b[i]) % Q;
        return r;
    }

    static int[] pmul(int[] a, int[] b) {
        int[] r = new int[256];
        for (int i = 0; i < 128; i++) {
            int g = ZETA[64 + i / 2];
            if (i % 2 == 1) g = Q - g;
            r[2 * i] = (a[2 * i] * b[2 * i] + a[2 * i + 1] * b[2 * i + 1] % Q * g) % Q;
            r[2 * i + 1] = (a[2 * i] * b[2 * i + 1] + a[2 * i + 1] * b[2 * i]) % Q;
        }
        return r;
    }

    static int[] dot(int[][] a, int[][] b) { return padd(padd(pmul(a[0], b[0]), pmul(a[1], b[1])), pmul(a[2], b[2])); }

    static int[] unpack(byte[] b, int off, int d) {
        int[] r = new int[256];
        for (int i = 0; i < 256 * d; i++)
            r[i / d] |= ((b[off + i / 8] >> (i % 8)) & 1) << (i % d);
        return r;
    }

    static void pack(byte[] b, int off, int d, int[] f) {
        for (int i = 0; i < 256 * d; i++)
            b[off + i / 8] |= (byte) (((f[i / d] >> (i % d)) & 1) << (i % 8));
    }

    static int[] sampleNtt(byte[] rho, int j, int i) {
        byte[] s = Arrays.copyOf(rho, 34);
        s[32] = (byte) j;
        s[33] = (byte) i;
        byte[] b = shake(168, s, 168 * 8);
        int[] r = new int[256];
        int n = 0;
        for (int o = 0; n < 256; o += 3) {
            int d1 = (b[o] & 255) | ((b[o + 1] & 15) << 8), d2 = ((b[o + 1] & 255) >> 4) | ((b[o + 2] & 255) << 4);
            if (d1 < Q) r[n++] = d1;
            if (d2 < Q && n < 256) r[n++] = d2;
        }
        return r;
    }

    static int[] noise(byte[] s, int n) {
        byte[] x = Arrays.copyOf(s, 33);
        x[32] = (byte) n;
        byte[] b = shake(136, x, 128);
        int[] r = new int[256];
        for (int i = 0; i < 256; i++) {
            int v = (b[i / 2] >> (4 * (i % 2))) & 15;
            r[i] = (Integer.bitCount(v & 3) - Integer.bitCount(v >> 2) + Q) % Q;
        }
        return r;
    }

    static int comp(int d, int x) { return (int) ((((long) x << (d + 1)) + Q) / (2 * Q)) & ((1 << d) - 1); }
    static int decomp(int d, int y) { return (2 * Q * y + (1 << d)) >> (d + 1); }
    static int[] comp(int d, int[] f) { int[] r = new int[256]; for (int i = 0; i < 256; i++) r[i] = comp(d, f[i]); return r; }
    static int[] decomp(int d, int[] f) { int[] r = new int[256]; for (int i = 0; i < 256; i++) r[i] = decomp(d, f[i]); return r; }
    static int[] modq(int[] f) { for (int i = 0; i < 256; i++) f[i] %= Q; return f; }

    @TLAPlusOperator(identifier = "PkeKeyGen", module = "MlKem", warn = false)
    public static Value pkeKeyGen(Value d) {
        byte[] g = hash("sha3_512", cat(by(d), new byte[] { 3 })), rho = Arrays.copyOf(g, 32), sg = Arrays.copyOfRange(g, 32, 64);
        int[][] s = new int[3][], e = new int[3][];
        for (int i = 0; i < 3; i++) { s[i] = ntt(noise(sg, i)); e[i] = ntt(noise(sg, i + 3)); }
        byte[] ek = new byte[1184], dk = new byte[1152];
        for (int i = 0; i < 3; i++) {
            int[][] a = new int[3][];
            for (int j = 0; j < 3; j++) a[j] = sampleNtt(rho, j, i);
            pack(ek, 384 * i, 12, padd(dot(a, s), e[i]));
            pack(dk, 384 * i, 12, s[i]);
        }
        System.arraycopy(rho, 0, ek, 1152, 32);
        return new RecordValue(new util.UniqueString[] { util.UniqueString.uniqueStringOf("ek"), util.UniqueString.uniqueStringOf("dk") },
            new Value[] { sv(ek), sv(dk) }, false);
    }

    @TLAPlusOperator(identifier = "PkeEncrypt", module = "MlKem", warn = false)
    public static Value pkeEncrypt(Value ekv, Value mv, Value rv) {
        byte[] ek = by(ekv), m = by(mv), r = by(rv), rho = Arrays.copyOfRange(ek, 1152, 1184), c = new byte[1088];
        int[][] t = new int[3][], y = new int[3][];
        for (int i = 0; i < 3; i++) { t[i] = modq(unpack(ek, 384 * i, 12)); y[i] = ntt(noise(r, i)); }
        for (int i = 0; i < 3; i++) {
            int[][] a = new int[3][];
            for (int j = 0; j < 3; j++) a[j] = sampleNtt(rho, i, j);
            pack(c, 320 * i, 10, comp(10, padd(intt(dot(a, y)), noise(r, i + 3))));
        }
        pack(c, 960, 4, comp(4, padd(padd(intt(dot(t, y)), noise(r, 6)), decomp(1, unpack(m, 0, 1)))));
        return sv(c);
    }

    @TLAPlusOperator(identifier = "PkeDecrypt", module = "MlKem", warn = false)
    public static Value pkeDecrypt(Value dkv, Value cv) {
        byte[] dk = by(dkv), c = by(cv), m = new byte[32];
        int[][] u = new int[3][], s = new int[3][];
        for (int i = 0; i < 3; i++) { u[i] = ntt(decomp(10, unpack(c, 320 * i, 10))); s[i] = modq(unpack(dk, 384 * i, 12)); }
        int[] v = decomp(4, unpack(c, 960, 4)), w = intt(dot(s, u));
        for (int i = 0; i < 256; i++) w[i] = (v[i] + Q - w[i]) % Q;
        pack(m, 0, 1, comp(1, w));
        return sv(m);
    }

    @TLAPlusOperator(identifier = "MlEkOk", module = "MlKem", warn = false)
    public static Value mlEkOk(Value v) {
        byte[] b = by(v);
        if (b.length != 1184) return BoolValue.ValFalse;
        for (int i = 0; i < 3; i++)
            for (int x : unpack(b, 384 * i, 12))
                if (x >= Q) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }

    /** a byte string without its trailing zeros */
    @TLAPlusOperator(identifier = "Unpad", module = "ApiTls", warn = false)
    public static Value unpad(Value v) {
        byte[] b = by(v);
        int n = b.length;
        while (n > 0 && b[n - 1] == 0) n--;
        return sv(Arrays.copyOf(b, n));
    }
}
