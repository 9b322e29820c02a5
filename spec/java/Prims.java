import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.*;
import util.UniqueString;

// TLC evaluation of Prims.tla (see there). Independent of the code under test.
public class Prims {
    static byte[] bytes(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a byte string: " + v);
        Value[] e = ((TupleValue) t).elems;
        byte[] b = new byte[e.length];
        for (int i = 0; i < e.length; i++) {
            int x = ((IntValue) e[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            b[i] = (byte) x;
        }
        return b;
    }
    static final IntValue[] IV = new IntValue[256];
    static { for (int i = 0; i < 256; i++) IV[i] = IntValue.gen(i); }
    static Value tuple(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IV[b[i] & 255];
        return new TupleValue(e);
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static byte[] sha256(byte[] b) {
        try { return MessageDigest.getInstance("SHA-256").digest(b); } catch (Exception e) { throw new RuntimeException(e); }
    }
    public static Value SHA256(Value v) { return tuple(sha256(bytes(v))); }
    public static Value RIPEMD160(Value v) { return tuple(Ripemd.digest(bytes(v))); }
    public static Value HMACSHA512(Value k, Value v) {
        try {
            Mac m = Mac.getInstance("HmacSHA512");
            byte[] kb = bytes(k);
            m.init(new SecretKeySpec(kb.length == 0 ? new byte[1] : kb, "HmacSHA512"));
            return tuple(m.doFinal(bytes(v)));
        } catch (Exception e) { throw new RuntimeException(e); }
    }

    // ---- byte strings <-> text ----
    static String str(Value v) { return ((StringValue) v).val.toString(); }
    static int hexDigit(char c) {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        throw new RuntimeException("bad hex digit in recorded value: " + c);
    }
    static byte[] unhex(String s) {
        java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream(s.length() / 2);
        int i = 0;
        while (i < s.length()) {
            char c = s.charAt(i);
            if (c == '(') {
                int st = s.indexOf('*', i), en = s.indexOf(')', i);
                byte[] g = unhex(s.substring(i + 1, st));
                int n = Integer.parseInt(s.substring(st + 1, en));
                for (int k = 0; k < n; k++) o.write(g, 0, g.length);
                i = en + 1;
            } else {
                o.write(hexDigit(c) * 16 + hexDigit(s.charAt(i + 1)));
                i += 2;
            }
        }
        return o.toByteArray();
    }
    static final char[] HD = "0123456789abcdef".toCharArray();
    static String hex(byte[] b) {
        char[] c = new char[b.length * 2];
        for (int i = 0; i < b.length; i++) { c[2 * i] = HD[(b[i] >> 4) & 15]; c[2 * i + 1] = HD[b[i] & 15]; }
        return new String(c);
    }
    public static Value B(Value s) { return tuple(unhex(str(s))); }
    public static Value IsHexArg(Value s) {
        if (!(s instanceof StringValue)) return BoolValue.ValFalse;
        String t = str(s);
        if (t.length() % 2 != 0) return BoolValue.ValFalse;
        for (int i = 0; i < t.length(); i++) if ("0123456789abcdef".indexOf(t.charAt(i)) < 0) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    // equality of recorded values of whatever shape
    public static Value SameVal(Value a, Value b) {
        try { return bool(a.equals(b)); }
        catch (RuntimeException e) { return BoolValue.ValFalse; }
    }
    // ---- test cases made by models ----
    static final java.util.TreeMap<Long, String> kept = new java.util.TreeMap<>();
    static long emitted = 0;
    static final int LIMIT = Integer.parseInt(System.getenv().getOrDefault("LIMIT", "100000"));
    // the LIMIT lines of smallest hash are kept, in an order that does not depend on how TLC explores; the first line of the file is the number of lines emitted
    public static Value EmitLine(Value s) {
        String f = System.getenv("CASES");
        if (f == null) return BoolValue.ValTrue;
        String line = str(s);
        byte[] d = sha256((System.getenv("SEED") + line).getBytes(java.nio.charset.StandardCharsets.UTF_8));
        long h = java.nio.ByteBuffer.wrap(d).getLong() >>> 1;
        synchronized (kept) {
            if (emitted++ == 0) {
                Runtime.getRuntime().addShutdownHook(new Thread(() -> {
                    try (java.io.Writer w = new java.io.BufferedWriter(new java.io.FileWriter(f))) {
                        w.write(emitted + "\n");
                        for (String l : kept.values()) w.write(l + "\n");
                    } catch (java.io.IOException e) { e.printStackTrace(); }
                }));
            }
            if (kept.size() < LIMIT || h < kept.lastKey()) {
                kept.put(h, line);
                if (kept.size() > LIMIT) kept.pollLastEntry();
            }
        }
        return BoolValue.ValTrue;
    }
    public static Value PlanHex(Value v) { return new StringValue(hex(bytes(v))); }
    static final int LONG = 2048;
    public static Value Hex(Value v) {
        byte[] b = bytes(v);
        if (b.length > LONG) return new StringValue("#" + b.length + ":" + hex(sha256(b)));
        return new StringValue(hex(b));
    }
    public static Value Ascii(Value s) {
        String t = str(s);
        byte[] b = new byte[t.length()];
        for (int i = 0; i < b.length; i++) b[i] = (byte) t.charAt(i);
        return tuple(b);
    }
    public static Value Text(Value v) {
        byte[] b = bytes(v);
        char[] c = new char[b.length];
        for (int i = 0; i < b.length; i++) c[i] = (char) (b[i] & 255);
        return new StringValue(new String(c));
    }

    // ---- secp256k1 ----
    static final BigInteger P = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16);
    static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
    static final BigInteger GX = new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16);
    static final BigInteger GY = new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16);
    static final BigInteger SEVEN = BigInteger.valueOf(7), TWO = BigInteger.valueOf(2), THREE = BigInteger.valueOf(3);
    // Jacobian points; null = infinity
    static BigInteger[] dbl(BigInteger[] a) {
        if (a == null || a[1].signum() == 0) return null;
        BigInteger y2 = a[1].multiply(a[1]).mod(P);
        BigInteger s = a[0].multiply(y2).shiftLeft(2).mod(P);
        BigInteger m = a[0].multiply(a[0]).multiply(THREE).mod(P);
        BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
        BigInteger y = m.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(P);
        BigInteger z = a[1].multiply(a[2]).shiftLeft(1).mod(P);
        return new BigInteger[]{x, y, z};
    }
    static BigInteger[] add(BigInteger[] a, BigInteger[] b) {
        if (a == null) return b;
        if (b == null) return a;
        BigInteger z1 = a[2].multiply(a[2]).mod(P), z2 = b[2].multiply(b[2]).mod(P);
        BigInteger u1 = a[0].multiply(z2).mod(P), u2 = b[0].multiply(z1).mod(P);
        BigInteger s1 = a[1].multiply(z2).multiply(b[2]).mod(P), s2 = b[1].multiply(z1).multiply(a[2]).mod(P);
        if (u1.equals(u2)) return s1.equals(s2) ? dbl(a) : null;
        BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P);
        BigInteger h2 = h.multiply(h).mod(P), h3 = h2.multiply(h).mod(P), v = u1.multiply(h2).mod(P);
        BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
        BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(P);
        BigInteger z = h.multiply(a[2]).multiply(b[2]).mod(P);
        return new BigInteger[]{x, y, z};
    }
    static BigInteger[] mul(BigInteger k, BigInteger[] p) {
        BigInteger[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) { r = dbl(r); if (k.testBit(i)) r = add(r, p); }
        return r;
    }
    // multiples of G: BASE[i][d] = d * 16^i * G
    static final BigInteger[][][] BASE = new BigInteger[64][16][];
    static BigInteger[] mulG(BigInteger k) {
        BigInteger[] r = null;
        for (int i = 0; i < 64; i++) {
            int d = k.shiftRight(4 * i).intValue() & 15;
            if (d != 0) r = add(r, BASE[i][d]);
        }
        return r;
    }
    static BigInteger[] affine(BigInteger[] a) {
        if (a == null) return null;
        BigInteger zi = a[2].modInverse(P), z2 = zi.multiply(zi).mod(P);
        return new BigInteger[]{a[0].multiply(z2).mod(P), a[1].multiply(z2).multiply(zi).mod(P), BigInteger.ONE};
    }
    static final BigInteger[] G = {GX, GY, BigInteger.ONE};
    static {
        BigInteger[] p = G;
        for (int i = 0; i < 64; i++) {
            for (int d = 1; d < 16; d++) BASE[i][d] = affine(add(BASE[i][d - 1], p));
            p = affine(add(BASE[i][15], p));
        }
    }
    // results are remembered: the same keys occur again and again
    static final java.util.concurrent.ConcurrentHashMap<String, Value> MEMO = new java.util.concurrent.ConcurrentHashMap<>();
    static Value memo(String op, java.util.function.Supplier<Value> f, byte[]... args) {
        if (MEMO.size() > 200000) MEMO.clear();
        StringBuilder k = new StringBuilder(op);
        for (byte[] a : args) k.append(':').append(hex(a));
        String key = k.toString();
        Value v = MEMO.get(key);
        if (v == null) { v = f.get(); v.deepNormalize(); MEMO.put(key, v); }
        return v;
    }
    static byte[] compress(BigInteger[] p) {
        BigInteger[] a = affine(p);
        byte[] r = new byte[33];
        r[0] = (byte) (a[1].testBit(0) ? 3 : 2);
        byte[] x = a[0].toByteArray();
        int n = Math.min(32, x.length);
        System.arraycopy(x, x.length - n, r, 33 - n, n);
        return r;
    }
    static BigInteger[] decompress(byte[] b) {
        if (b.length != 33 || (b[0] != 2 && b[0] != 3)) return null;
        BigInteger x = new BigInteger(1, Arrays.copyOfRange(b, 1, 33));
        if (x.compareTo(P) >= 0) return null;
        BigInteger y2 = x.modPow(THREE, P).add(SEVEN).mod(P);
        BigInteger y = y2.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
        if (!y.multiply(y).mod(P).equals(y2)) return null;
        if (y.testBit(0) != (b[0] == 3)) y = P.subtract(y);
        return new BigInteger[]{x, y, BigInteger.ONE};
    }
    public static Value PubFromPriv(Value k) { return memo("pub", () -> tuple(compress(mulG(new BigInteger(1, bytes(k))))), bytes(k)); }
    public static Value ValidPub(Value p) { return bytes(p).length > 80 ? BoolValue.ValFalse : memo("valid", () -> bool(decompress(bytes(p)) != null), bytes(p)); }
    public static Value AddTweak(Value p, Value t) { return memo("tweak", () -> addTweak(p, t), bytes(p), bytes(t)); }
    static Value addTweak(Value p, Value t) {
        BigInteger k = new BigInteger(1, bytes(t));
        if (k.compareTo(N) >= 0) return tuple(new byte[0]);
        BigInteger[] r = add(decompress(bytes(p)), mulG(k));
        return tuple(r == null ? new byte[0] : compress(r));
    }
    // strict DER: 30 len 02 rlen r 02 slen s, minimal positive integers
    static BigInteger[] der(byte[] d) {
        if (d.length < 8 || d.length > 72 || d[0] != 0x30 || d[1] != d.length - 2 || d[2] != 2) return null;
        int rl = d[3] & 255;
        if (rl == 0 || 4 + rl + 2 > d.length || d[4 + rl] != 2) return null;
        int sl = d[5 + rl] & 255;
        if (sl == 0 || 6 + rl + sl != d.length) return null;
        BigInteger r = derInt(d, 4, rl), s = derInt(d, 6 + rl, sl);
        return r == null || s == null ? null : new BigInteger[]{r, s};
    }
    static byte[] hmac256(byte[] k, byte[]... parts) {
        try {
            Mac m = Mac.getInstance("HmacSHA256");
            m.init(new SecretKeySpec(k, "HmacSHA256"));
            for (byte[] p : parts) m.update(p);
            return m.doFinal();
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    static byte[] be32(BigInteger x) {
        byte[] b = x.toByteArray(), r = new byte[32];
        int n = Math.min(32, b.length);
        System.arraycopy(b, b.length - n, r, 32 - n, n);
        return r;
    }
    static final java.util.concurrent.ConcurrentHashMap<String, Value> SIGS = new java.util.concurrent.ConcurrentHashMap<>();
    // deterministic (RFC 6979) low-S signature in DER; used by models only, never to judge a recorded one
    public static Value EcdsaSign(Value key, Value dig) {
        byte[] kb = bytes(key), db = bytes(dig);
        return SIGS.computeIfAbsent(hex(kb) + hex(db), x -> tuple(sign(kb, db)));
    }
    static byte[] sign(byte[] kb, byte[] db) {
        BigInteger d = new BigInteger(1, kb), e = new BigInteger(1, db);
        byte[] h = be32(e.mod(N)), v = new byte[32], k = new byte[32];
        Arrays.fill(v, (byte) 1);
        k = hmac256(k, v, new byte[]{0}, kb, h); v = hmac256(k, v);
        k = hmac256(k, v, new byte[]{1}, kb, h); v = hmac256(k, v);
        while (true) {
            v = hmac256(k, v);
            BigInteger n = new BigInteger(1, v);
            if (n.signum() > 0 && n.compareTo(N) < 0) {
                BigInteger r = affine(mulG(n))[0].mod(N);
                BigInteger s = n.modInverse(N).multiply(e.add(r.multiply(d))).mod(N);
                if (r.signum() != 0 && s.signum() != 0) {
                    if (s.compareTo(N.shiftRight(1)) > 0) s = N.subtract(s);
                    byte[] rb = r.toByteArray(), sb = s.toByteArray();
                    byte[] o = new byte[6 + rb.length + sb.length];
                    o[0] = 0x30; o[1] = (byte) (o.length - 2); o[2] = 2; o[3] = (byte) rb.length;
                    System.arraycopy(rb, 0, o, 4, rb.length);
                    o[4 + rb.length] = 2; o[5 + rb.length] = (byte) sb.length;
                    System.arraycopy(sb, 0, o, 6 + rb.length, sb.length);
                    return o;
                }
            }
            k = hmac256(k, v, new byte[]{0}); v = hmac256(k, v);
        }
    }
    static BigInteger derInt(byte[] d, int o, int n) {
        if (d[o] < 0) return null;
        if (n > 1 && d[o] == 0 && d[o + 1] >= 0) return null;
        return new BigInteger(1, Arrays.copyOfRange(d, o, o + n));
    }
    public static Value EcdsaVerify(Value p, Value dig, Value sig) { return memo("ecdsa", () -> ecdsaVerify(p, dig, sig), bytes(p), bytes(dig), bytes(sig)); }
    static Value ecdsaVerify(Value p, Value dig, Value sig) {
        BigInteger[] q = decompress(bytes(p)), rs = der(bytes(sig));
        if (q == null || rs == null) return BoolValue.ValFalse;
        BigInteger r = rs[0], s = rs[1];
        if (r.signum() == 0 || s.signum() == 0 || r.compareTo(N) >= 0 || s.compareTo(N.shiftRight(1)) > 0) return BoolValue.ValFalse;
        BigInteger e = new BigInteger(1, bytes(dig)), w = s.modInverse(N);
        BigInteger[] x = affine(add(mulG(e.multiply(w).mod(N)), mul(r.multiply(w).mod(N), q)));
        return bool(x != null && x[0].mod(N).equals(r));
    }

    // hints, checked where they are used
    public static Value RootHint(Value v) {
        BigInteger c = new BigInteger(1, bytes(v)).modPow(THREE, P).add(SEVEN).mod(P), e = P.add(BigInteger.ONE).shiftRight(2), y = c.modPow(e, P);
        if (!y.multiply(y).mod(P).equals(c)) y = c.negate().mod(P).modPow(e, P);
        return tuple(be32(y));
    }
    public static Value InvHint(Value v) { return tuple(be32(new BigInteger(1, bytes(v)).modInverse(N))); }

    // ---- RIPEMD-160 ----
    static class Ripemd {
        static final int[] RL = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
        static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
        static final int[] SL = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
        static final int[] SR = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
        static final int[] KL = {0x00000000, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, KR = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0x00000000};
        static int f(int j, int x, int y, int z) {
            switch (j >> 4) {
                case 0: return x ^ y ^ z;
                case 1: return (x & y) | (~x & z);
                case 2: return (x | ~y) ^ z;
                case 3: return (x & z) | (y & ~z);
                default: return x ^ (y | ~z);
            }
        }
        static byte[] digest(byte[] m) {
            int n = m.length;
            byte[] b = Arrays.copyOf(m, ((n + 8) / 64 + 1) * 64);
            b[n] = (byte) 0x80;
            long bits = (long) n * 8;
            for (int i = 0; i < 8; i++) b[b.length - 8 + i] = (byte) (bits >>> (8 * i));
            int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
            int[] x = new int[16];
            for (int o = 0; o < b.length; o += 64) {
                for (int i = 0; i < 16; i++) x[i] = (b[o + 4 * i] & 255) | (b[o + 4 * i + 1] & 255) << 8 | (b[o + 4 * i + 2] & 255) << 16 | (b[o + 4 * i + 3] & 255) << 24;
                int a = h[0], B = h[1], c = h[2], d = h[3], e = h[4], a2 = a, b2 = B, c2 = c, d2 = d, e2 = e, t;
                for (int j = 0; j < 80; j++) {
                    t = Integer.rotateLeft(a + f(j, B, c, d) + x[RL[j]] + KL[j >> 4], SL[j]) + e;
                    a = e; e = d; d = Integer.rotateLeft(c, 10); c = B; B = t;
                    t = Integer.rotateLeft(a2 + f(79 - j, b2, c2, d2) + x[RR[j]] + KR[j >> 4], SR[j]) + e2;
                    a2 = e2; e2 = d2; d2 = Integer.rotateLeft(c2, 10); c2 = b2; b2 = t;
                }
                t = h[1] + c + d2; h[1] = h[2] + d + e2; h[2] = h[3] + e + a2; h[3] = h[4] + a + b2; h[4] = h[0] + B + c2; h[0] = t;
            }
            byte[] r = new byte[20];
            for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
            return r;
        }
    }
}
